"""Engine self-test, run by setup_cmd."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
print('z3', z3.get_version_string())
