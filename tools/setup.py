"""setup_cmd: builds the library's native core in every flavour the checks use (they rebuild it themselves when the tree changes)."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
sys.dont_write_bytecode = True
from r4v import build, checks  # noqa: E402

fl = {j.get("flavor", "plain") for c in checks.CHECKS.values() for j in c["jobs"]}
for f in sorted(fl):
    print(f, build.build(f))
print(build.jitter())
