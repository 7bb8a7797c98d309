"""Stand-in for mpi4py used by the checks (see mc/vmpi.py)."""

__version__ = "3.1.6"


class rc:
    initialize = True
    finalize = True
    threads = True
    recv_mprobe = True


def get_include():
    return ""


def get_config():
    return {}
