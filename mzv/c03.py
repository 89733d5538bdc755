"""C03: ordering, sorting, indexing and precedence constraints mean what they are documented to mean."""
from . import globs, globcheck
from .core import main

PROP = "C03"
N = {"quick": 2000, "thorough": 40000}
CLS = globs.Ordering
globcheck.install(globals())

if __name__ == "__main__":
    import mzv.c03 as me
    main(me)
