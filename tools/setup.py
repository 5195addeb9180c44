"""Sanity check of the tools the checks rely on (nothing has to be built)."""
import sys
sys.path.append('/opt/venv/lib/python3.12/site-packages')
import z3        # noqa
import apsw      # noqa
import trio      # noqa
print('z3', z3.get_version_string(), 'apsw', apsw.apsw_version())
