#!/opt/venv/bin/python
"""Run the same seeds with different numbers of workers and different hash seeds and compare the digests of all runs.

tools/determinism.py [RUNS] [ID...]   Not a check: a test of the simulator."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = sys.argv[1] if len(sys.argv) > 1 else '600'
ids = sys.argv[2:] or ['C%02d' % i for i in range(1, 17)] + ['C20']
bad = 0
with tempfile.TemporaryDirectory() as tmp:
    for i in ids:
        got = []
        for jobs, hs in (('8', '0'), ('3', '0'), ('8', '12345')):
            f = os.path.join(tmp, 'd.json')
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), i, '--runs', runs, '--jobs', jobs, '--digests', f],
                               env=dict(os.environ, AMSIM_HASHSEED=hs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                print(r.stdout.decode())
            got.append(json.load(open(f)))
        n = len(got[0])
        d = [sum(1 for a, b in zip(got[0], g) if a != b) + abs(n - len(g)) for g in got[1:]]
        print(i, n, 'runs; different with other workers: %d, with another hash seed: %d' % tuple(d), flush=True)
        bad += d[0]
sys.exit(bool(bad))
