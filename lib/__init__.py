import sys

_H = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _H not in sys.path:
  sys.path.append(_H)
