"""sx: symbolic execution of the repository's real Python source with z3."""
import os
import sys

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)      # at the end: the repo's own packages win
REPO = os.environ.get('VERIF_REPO', '/repo')
