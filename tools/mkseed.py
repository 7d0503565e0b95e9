#!/usr/bin/env python3
"""tools/mkseed.py <id> <property> <file> <needs> <what>   with OLD/NEW text on stdin separated by a line ====; multiple edits separated by a line ####"""
import sys, os, subprocess, json, shutil
i, prop, needs, what = sys.argv[1:5]
d = f'/verif/seeded/{i}'; os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'])
for e in sys.stdin.read().split('\n####\n'):
    f, rest = e.strip('\n').split('\n', 1)
    old, new = rest.split('\n====\n') if '\n====\n' in rest else (rest.split('\n====')[0], '')
    p = '/repo/' + f; s = open(p).read()
    if s.count(old) != 1: print('OLD occurs', s.count(old), 'times in', f); subprocess.call(['git', '-C', '/repo', 'checkout', '--', '.']); sys.exit(1)
    open(p, 'w').write(s.replace(old, new))
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', '/repo', 'diff']).decode())
subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
if not os.path.exists(d + '/demo.sh'): shutil.copy('/verif/tools/demo_template.sh', d + '/demo.sh')
