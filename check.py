#!/opt/venv/bin/python
'''usage: check.py ID [quick|thorough]   or   check.py --replay FILE'''
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, HERE)
from mon import core  # noqa: E402
sys.exit(core.main(sys.argv[1:]))
