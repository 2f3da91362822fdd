import sys as _sys
_P = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _P not in _sys.path:
    _sys.path.append(_P)
