import os, sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')   # Hypothesis only; the repo's own venv wins
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from vf import core
if sys.argv[1] == '--replay':
    sys.exit(core.replay(sys.argv[2]))
sys.exit(core.main(sys.argv[1], sys.argv[2:]))
