"""Environment for mpirun: shared memory only, root allowed, more ranks than cores."""
import os

ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1", "OMPI_MCA_osc": "^ucx",
    "OMPI_MCA_plm_rsh_agent": "/bin/false", "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_btl_vader_eager_limit": "512",     # larger messages wait for their receiver: senders that count on buffering get stuck
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "RDMAV_FORK_SAFE": "1", "HWLOC_COMPONENTS": "-gl",
    "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1", "PIP_NO_INDEX": "1",
    "OMPI_MCA_orte_abort_print_stack": "0",
}


def make(pkgdir, harness, tmpdir, hashseed="0", extra=None):
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "LC_ALL", "VERIF_SEED", "VERIF_TIER", "USER", "SHELL")}
    e.setdefault("HOME", "/root")
    e.update(ENV)
    e["PYTHONHASHSEED"] = hashseed
    e["PYTHONPATH"] = pkgdir + ":" + harness
    e["TMPDIR"] = tmpdir
    if extra:
        e.update(extra)
    return e
