"""C02: counting and all-different style constraints mean what they are documented to mean."""
from . import globs, globcheck
from .core import main

PROP = "C02"
N = {"quick": 2000, "thorough": 40000}
CLS = globs.Counting
globcheck.install(globals())

if __name__ == "__main__":
    import mzv.c02 as me
    main(me)
