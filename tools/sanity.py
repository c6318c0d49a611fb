#!/opt/venv/bin/python
"""setup_cmd: nothing has to be built; check that what the checks need is there."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import html5lib  # noqa
import ply.yacc  # noqa
assert sys.version_info >= (3, 12) and hasattr(sys, 'monitoring')
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
print('ok')
