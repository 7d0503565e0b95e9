"""The source of a crate of the repository after macro expansion: the compiler's own expansion
(-Zunpretty=expanded) of the crate that was just built, with the flags it was built with. The
generated dispatchers, account accessors and serializers are verified on this text."""
import os, json, subprocess
from .rsx import Lost
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, '.build')

def text(spec):
    """spec: <executable contract crate>/<crate name>"""
    d, crate = spec.split('/')
    p = os.path.join(BUILD, d, f'cmd-{crate}.json')
    if not os.path.exists(p): raise Lost(f'{crate}: not built, no expansion')
    c = json.load(open(p))
    if not os.path.exists(os.path.join(BUILD, d, 'stamp')): raise Lost(f'{crate}: the tree does not build, no expansion')
    out = []; skip = False
    for a in c['argv']:
        if skip: skip = False; continue
        if a == '--out-dir' or a == '--error-format' or a == '--json': skip = True; continue
        if a.startswith(('--emit', '--error-format', '--json', '--out-dir', '--diagnostic-width')): continue
        if a == '-C' : out.append(a); continue
        if a.startswith('incremental=') and out and out[-1] == '-C': out.pop(); continue
        out.append(a)
    r = subprocess.run(out + ['-Zunpretty=expanded'], cwd=c['cwd'], env=dict(c['env'], RUSTC_BOOTSTRAP='1'), capture_output=True, text=True, timeout=200)
    if r.returncode: raise Lost(f'{crate}: no expansion: ' + r.stderr[-200:])
    return r.stdout
