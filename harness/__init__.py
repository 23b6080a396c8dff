import sys
# hypothesis, jsonschema, mpmath live in the tooling venv; its numpy etc. must not shadow the venv's own
_vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _vt not in sys.path:
    sys.path.append(_vt)
