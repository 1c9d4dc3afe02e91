import sys
_Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if 'z3' not in sys.modules:
    sys.path.append(_Z3)
    try:
        import z3  # noqa: F401
    finally:
        sys.path.remove(_Z3)
