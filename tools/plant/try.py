#!/usr/bin/env python3
"""Runs the checks against planted bugs: try.py [ID...] [+PROPERTY...]; the tree of /repo is put back after each."""
import json, os, subprocess, sys, time
ids = [a for a in sys.argv[1:] if a[0] != '+'] or sorted(os.listdir('/verif/seeded'))
more = [a[1:] for a in sys.argv[1:] if a[0] == '+']
for b in ids:
    prop = json.load(open('/verif/seeded/%s/meta.json' % b))['property']
    subprocess.run(['git', '-C', '/repo', 'apply', '/verif/seeded/%s/patch.diff' % b], check=True)
    try:
        for p in more or [prop]:
            t = time.time()
            out = subprocess.run(['python3', '/verif/check.py', p, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            viol = [l for l in out.stdout.splitlines() if l.startswith('VIOLATION')]
            tail = '' if out.returncode in (0, 1) else (out.stdout + out.stderr)[-400:]
            print(b, p, 'rc=%d' % out.returncode, '%.0fs' % (time.time() - t), viol[:1], tail, flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
