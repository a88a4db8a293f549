"""Development aid: writes seeded/<id>/ (patch.diff against /repo's HEAD, demo.sh, demo.py, meta.json)."""
import json, os, shutil, subprocess, tempfile

DEMO = """#!/bin/bash
# Exit 0 when the property holds, nonzero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 OMPI_MCA_osc=^ucx OMPI_MCA_plm_rsh_agent=/bin/false
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_btl_vader_single_copy_mechanism=none RDMAV_FORK_SAFE=1 HWLOC_COMPONENTS=-gl
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1
T=$(mktemp -d /tmp/r4demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
cd "$T"
timeout 200 %s "$D/demo.py"
"""
HEAD = '''import sys, traceback
from mpi4py import MPI
import numpy as np
comm = MPI.COMM_WORLD
rank = comm.Get_rank()
'''
TAIL = '''

try:
    main()
except BaseException:
    traceback.print_exc()
    sys.stderr.flush()
    comm.Abort(1)
'''
AGENT = '''from repast4py import core, context, space
from repast4py.space import DiscretePoint as DP, ContinuousPoint as CP, BorderType, OccupancyType
from repast4py.geometry import BoundingBox


class A(core.Agent):
    def __init__(self, id, rank, v=0, type=0):
        super().__init__(id=id, type=type, rank=rank)
        self.v = v

    def save(self):
        return (self.uid, self.v)

    def update(self, v):
        self.v = v


def restore(data):
    uid = data[0]
    return A(uid[0], uid[2], data[1], uid[1])


'''


def bug(id, prop, edits, np, demo, needs, breaks, agent=True):
    d = f"/verif/seeded/{id}"
    w = tempfile.mkdtemp(prefix="mk", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for f, old, new in edits:
            p = f"{w}/r/src/repast4py/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f"{id}: {s.count(old)} matches of {old!r}")
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        # which of the removed lines are the original repository's?
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        run = "/opt/venv/bin/python" if np == 0 else f"mpirun.openmpi -n {np} /opt/venv/bin/python"
        open(d + "/demo.sh", "w").write(DEMO % run)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(HEAD + (AGENT if agent else "\n\n") + demo.strip() + "\n" + TAIL)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        print("wrote", d)
    finally:
        shutil.rmtree(w)
