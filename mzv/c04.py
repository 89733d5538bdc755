"""C04: scheduling, packing and flow constraints mean what they are documented to mean."""
from . import globs_sched, globcheck
from .core import main

PROP = "C04"
N = {"quick": 2000, "thorough": 40000}
CLS = globs_sched.Scheduling
globcheck.install(globals())

if __name__ == "__main__":
    import mzv.c04 as me
    main(me)
