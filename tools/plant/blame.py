#!/usr/bin/env python3
"""For every planted bug: does it change a line of the original repository?"""
import os, re, subprocess
BASE = 'ee98991'
for b in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'seeded'))):
    old, mine, file, n = 0, 0, None, 0
    for line in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'seeded', b, 'patch.diff')):
        if line.startswith('--- '):
            file = line[6:].strip()
        elif line.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('-'):
            out = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (n, n), 'HEAD', '--', file], capture_output=True, text=True).stdout
            if out.startswith('^'):
                old += 1
            else:
                mine += 1
            n += 1
        elif line.startswith(' '):
            n += 1
    if mine or not old:
        print(b, 'original lines', old, 'own', mine)
