"""Import z3 from the verification venv without letting that venv shadow the repo's packages."""
import sys
_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:
    sys.path.append(_P)
    try:
        import z3
        import z3.z3printer, z3.z3util  # noqa
    finally:
        sys.path.remove(_P)
