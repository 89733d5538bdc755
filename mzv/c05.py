"""C05: tables, automata and decision diagrams mean what they are documented to mean."""
from . import globs_ext, globcheck
from .core import main

PROP = "C05"
N = {"quick": 2000, "thorough": 40000}
CLS = globs_ext.Extensional
globcheck.install(globals())

if __name__ == "__main__":
    import mzv.c05 as me
    main(me)
