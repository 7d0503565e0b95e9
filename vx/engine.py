"""Builds Verus units from templates and /repo's current source, runs Verus, maps results back
to functions.

Template directives (each at the start of a line):
  //@fn <path> [in "<block header>"] <name> [as <newname>]   extract a function ...
  //@const <path> [in "<hdr>"] <name>         copy a constant
  //@item <path> "<header>"                   copy an item
  //@macro <path> <name>                      copy a macro_rules definition
  //@accessors <path> "<struct header>" ...   model of an #[elusiv_account] struct
inside //@fn ... //@end:
  //@props A B            properties whose obligations this function carries
  //@sig <text>           replace the signature (parameters/return) -- recorded in the evidence
  //@ret r                name the return value
  //@spec                 following lines: requires/ensures
  //@loop k               following lines: invariants/decreases of the k-th loop
  //@top / //@looptop k / //@loopend k / //@bottom     following lines: ghost code put there
  //@before <regex> / //@after <regex>                 ghost code around a statement
  //@rw <regex> => <text> rewrite of the body (recorded in the evidence)
"""
import re, os, json, subprocess, tempfile, time, shlex, hashlib
from . import rsx
from .rsx import Lost

HERE = os.path.dirname(os.path.abspath(__file__))
UNITS = os.path.join(HERE, 'units')

# rewrites applied to every extracted body; they only change what is stated here
GLOBAL_RW = [
    (r'\bassert!\s*\(', 'rt_assert!(', 'assert! -> abort when false'),
    (r'\bassert_eq!\s*\(', 'rt_assert_eq!(', 'assert_eq! -> abort when different'),
    (r'\bdebug_assert!\s*\([^;]*\);', '', 'debug_assert! dropped (absent in release)'),
    (r'\bpanic!\s*\([^;{}]*\)', 'abort()', 'panic! -> abort'),
    (r'\bunreachable!\s*\([^;{}]*\)', 'abort()', 'unreachable! -> abort'),
    (r'\.unwrap\(\)', '.ok_or_abort()', 'unwrap() -> abort when None/Err'),
    (r'\.expect\("[^"]*"\)', '.ok_or_abort()', 'expect() -> abort when None/Err'),
    (r'#\[(allow|inline|cfg_attr|must_use)[^\]]*\]', '', 'lint attributes dropped'),
    (r'\bstd::cmp::', '', 'std::cmp path dropped'),
    (r'\bcrate::ID\b', 'id()', 'crate::ID as id()'),
    (r'\bcrate::(\w+::)*', '', 'crate paths dropped'),
    (r'\bsolana_program::msg!\s*\([^;]*\);', '', 'log dropped'),
    (r'\bmsg!\s*\([^;]*\);', '', 'log dropped'),
]

class Unit:
    def __init__(self, name):
        self.name = name
        self.text = ''
        self.fns = []          # (name, props, path, first line, last line)
        self.dropped = []      # recorded rewrites
        self.assumed = []
        self.lost = []

def parse_target(line):
    m = re.match(r'(\S+)\s+(?:in\s+"([^"]+)"\s+)?(\S+)(?:\s+as\s+(\S+))?\s*$', line)
    if not m: raise Exception('bad directive: ' + line)
    return m.groups()

def inject_fn(u, line, opts, vac=False, body=None):
    path, within, name, newname = parse_target(line)
    f = rsx.get_fn(path, name, within)
    body, sig = (f.body if body is None else body), f.sig
    o = dict(spec='', loops={}, top='', bottom='', looptop={}, loopend={}, before=[], after=[], rw=[], afterloop={}, beforeloop={},
             props=None, sig=None, ret=None, attr='', desugar=[], closure=None, closure_call=[], xclosure=None, xclosure_call=[])
    cur = None
    for l in opts:
        m = re.match(r'\s*//@(\w+)\s*(.*)$', l)
        if m:
            k, a = m.group(1), m.group(2).strip()
            cur = None
            if k == 'props': o['props'] = a.split()
            elif k == 'sig': o['sig'] = a
            elif k == 'ret': o['ret'] = a
            elif k == 'desugar': o['desugar'].append(int(a))
            elif k == 'world': o['world'] = True
            elif k == 'iters': o['iters'] = [x for x in a.split(';')]
            elif k == 'closure': o['closure'] = int(a)
            elif k == 'closure_call': o['closure_call'].append((int(a.split(' ', 1)[0]), a.split(' ', 1)[1]))
            elif k == 'xclosure': o['xclosure'] = int(a)
            elif k == 'xclosure_call': o['xclosure_call'].append((int(a.split(' ', 1)[0]), a.split(' ', 1)[1]))
            elif k == 'attr': o['attr'] += a + '\n'
            elif k == 'rw':
                x, y = a.split(' => ', 1) if ' => ' in a else (a.rstrip(' =>'), '')
                o['rw'].append((x, y))
            elif k in ('spec', 'top', 'bottom'): cur = (k,)
            elif k in ('loop', 'looptop', 'loopend', 'afterloop', 'beforeloop'): cur = (k, int(a)); o['loops' if k == 'loop' else k].setdefault(int(a), '')
            elif k in ('before', 'after'): o[k].append([a, '']); cur = (k,)
            else: raise Exception('bad directive ' + l)
        elif cur:
            if cur[0] in ('spec', 'top', 'bottom'): o[cur[0]] += l + '\n'
            elif cur[0] in ('loop', 'looptop', 'loopend', 'afterloop', 'beforeloop'): o['loops' if cur[0] == 'loop' else cur[0]][cur[1]] += l + '\n'
            else: o[cur[0]][-1][1] += l + '\n'
    if o['closure'] or o['closure_call']:
        cl = rsx.closures(body)
        if o['closure']:
            # the body of a closure as a function of its own (its captures are the parameters)
            if o['closure'] > len(cl): raise Lost(f'{path}: {name} has no closure {o["closure"]}')
            a, b, c = cl[o['closure'] - 1]
            u.dropped.append(f'{name}: closure {o["closure"]} as a function of its own, captures as parameters')
            body = body[b + 1:c]
        for k, t in sorted(o['closure_call'], reverse=True):
            if k > len(cl): raise Lost(f'{path}: {name} has no closure {k}')
            a, b, c = cl[k - 1]
            body = body[:a] + t + body[c + 1:]
    if o['xclosure'] or o['xclosure_call']:
        # the same, counting every closure (expression closures and nested ones too)
        cl = rsx.all_closures(body)
        if o['xclosure']:
            if o['xclosure'] > len(cl): raise Lost(f'{path}: {name} has no closure {o["xclosure"]}')
            a, b, c, d = cl[o['xclosure'] - 1]
            u.dropped.append(f'{name}: closure `{" ".join(body[a:b].split())}` as a function of its own, captures as parameters')
            body = body[b:c]
        for k, t in sorted(o['xclosure_call'], reverse=True):
            if k > len(cl): raise Lost(f'{path}: {name} has no closure {k}')
            a, b, c, d = cl[k - 1]
            body = body[:a] + t + body[d:]
    for a, b, why in GLOBAL_RW:
        nb = re.sub(a, b, body)
        if nb != body:
            u.dropped.append(f'{name}: {why}'); body = nb
    body, nl = rsx.head_breaks(body)
    if nl: u.dropped.append(f'{name}: loop that starts with a conditional break as the while loop')
    if o.get('world'):
        # the ledger w, a ghost record of every movement of funds, is threaded through the calls that move them
        n0 = body
        body = re.sub(r'(?<!instruction::)\b((?:transfer_token_from_pda|open_pda_account\w*|open_all_vkey\w*|close_and\w*)::<\w+>|transfer_token|transfer_with_system_program|transfer_with_token_program|transfer_lamports_from_pda_checked|transfer_lamports_from_pda|close_account|close_verification_pdas|create_associated_token_account|create_pda_account|invoke|invoke_signed)\((?=[^)])', r'\1(w, ', body)
        body = re.sub(r'\b(\w+)\.lamports\(\)', r'w.lamports(\1)', body)
        body = re.sub(r'\*\*(\w+)\.try_borrow_mut_lamports\(\)\?\s*=\s*([^;]*);', r'w.set_lamports(\1, \2)?;', body)
        if body != n0: u.dropped.append(f'{name}: the ledger w (ghost record of every movement of funds) is passed to the functions that move funds')
    for a, b in o['rw']:
        nb = re.sub(a, b, body, flags=re.S)
        if nb != body:
            u.dropped.append(f'{name}: rewrite /{a}/ -> {b}'); body = nb
    if 'iters' in o:
        body, dn = rsx.iter_chains(body, o['iters'])
        for x in dn: u.dropped.append(f'{name}: iterator chain `{x}` as the loop it stands for')
    for k in o['desugar']:
        lp = rsx.loops(body)
        if k > len(lp): raise Lost(f'{path}: {name} has no loop {k}')
        a, b, c = lp[k-1]
        head = body[a:b]
        m = re.match(r'for\s+(.*?)\s+in\s+(.*?)\s*$', head, re.S)
        me = re.match(r'\(\s*(\w+)\s*,\s*(.*?)\s*\)$', m.group(1), re.S) if m else None
        en = re.match(r'(.*?)\s*\.iter\(\)\s*\.enumerate\(\)$', m.group(2), re.S) if me else None
        co = re.match(r'&(?!mut\b)\s*(.*)$|(.*?)\s*\.iter\(\)$', m.group(2), re.S) if m and not en else None
        if en or co:
            # a loop over a slice or Vec as the loop over its indices
            v, pat, it = (me.group(1), me.group(2), en.group(1)) if en else (f'it{k}_i', m.group(1), co.group(1) or co.group(2))
            deref = '' if pat.startswith('&') else '&'
            bind = '' if pat == '_' else f' let {pat.lstrip("&").strip()} = {deref}it{k}[{v}];'
            u.dropped.append(f'{name}: `for {" ".join(head.split())[4:]}` as the equivalent loop over indices')
            body = body[:a] + f'let it{k} = &{it}; let mut {v}_next: usize = 0; while {v}_next < it{k}.len() ' + '{' + f' let {v} = {v}_next; {v}_next = {v}_next + 1;{bind} /*LT*/' + body[b+1:]
        elif m and re.match(r'\w+$', m.group(1)):
            v, it = m.group(1), m.group(2)
            rev = re.match(r'\(\s*(.*?)\s*\)\.rev\(\)$', it, re.S)
            if rev: it = rev.group(1)
            mi = rsx.mask(it); d = 0; pos = -1
            for x in range(len(mi) - 1):
                if mi[x] in '([{': d += 1
                elif mi[x] in ')]}': d -= 1
                elif d == 0 and mi[x:x+2] == '..': pos = x
            if pos < 0: raise Lost(f'{path}: {name}: loop {k} is not over a range')
            lo, hi = it[:pos], it[pos+2:]
            incl = hi.startswith('=')
            if rev:
                pre = f'let {v}_lo = {lo}; let mut {v}_next = {hi[1:] + " + 1" if incl else hi}; while {v}_next > {v}_lo '
            elif incl:
                # equivalent unless hi is the maximum of its type, where the increment overflows (checked)
                pre = f'let mut {v}_next = {lo}; let {v}_end = {hi[1:]}; while {v}_next <= {v}_end '
            else:
                pre = f'let mut {v}_next = {lo}; let {v}_end = {hi}; while {v}_next < {v}_end '
            top = f' {v}_next = {v}_next - 1; let {v} = {v}_next; ' if rev else f' let {v} = {v}_next; {v}_next = {v}_next + 1; '
            u.dropped.append(f'{name}: `for {v} in {"(" if rev else ""}{lo}..{hi}{").rev()" if rev else ""}` as the equivalent while loop')
            body = body[:a] + pre + '{' + top + '/*LT*/' + body[b+1:]
    ins = []
    lp = rsx.loops(body)
    want = set(o['loops'])
    if len(lp) != (max(want) if want else 0):
        raise Lost(f'{path}: {name} has {len(lp)} loops, the contract was written for {max(want) if want else 0}')
    for k, t in o['loops'].items(): ins.append((lp[k-1][1], '\n' + t))
    for k, t in o['looptop'].items():
        q = body.find('/*LT*/', lp[k-1][1])
        q = q if k in o['desugar'] and q >= 0 else lp[k-1][1] + 1
        ins.append((q, '\n' + t))
    for k, t in o['loopend'].items(): ins.append((lp[k-1][2], '\n' + t))
    for k, t in o['afterloop'].items(): ins.append((lp[k-1][2] + 1, '\n' + t))
    for k, t in o['beforeloop'].items(): ins.append((lp[k-1][0], '\n' + t))
    ms = body
    for pat, t in o['before']:
        m = re.search(pat, ms, re.S)
        if m: ins.append((m.start(), '\n' + t))
    for pat, t in o['after']:
        m = re.search(pat, ms, re.S)
        if m: ins.append((m.end(), '\n' + t))
    for pos, t in sorted(ins, key=lambda x: -x[0]):
        body = body[:pos] + t + body[pos:]
    sig = sig.strip()
    if o['sig']:
        u.dropped.append(f'{name}: signature `{" ".join(sig.split())}` -> `{o["sig"]}`')
        sig = o['sig']
    if o.get('world') and 'w: &mut World' not in sig: sig = re.sub(r'(fn\s+\w+\s*(?:<[^(]*>)?)\(', r'\1(w: &mut World, ', sig, count=1)
    sig = re.sub(r'pub\([a-z]+\)', 'pub', sig)
    sig = re.sub(r'\bconst\s+fn', 'fn', sig)
    if newname: sig = re.sub(r'fn\s+' + name, 'fn ' + newname, sig)
    if o['ret'] and '->' in sig:
        i = sig.rindex('->')
        sig = sig[:i] + f'-> ({o["ret"]}: {sig[i+2:].strip()})'
    top = ('proof { assert(false); }\n' if vac else '') + o['top']
    if 'external_body' in o['attr'] or re.search(r'\bspec\s+fn', sig): top = o['top']
    return o['attr'] + sig + '\n' + o['spec'] + '{\n' + top + body + o['bottom'] + '}\n', (newname or name), o['props'], path

def trusted_fn(u, line, opts):
    path, within, name, newname = parse_target(line)
    f = rsx.get_fn(path, name, within)
    if re.search(r'\bspec\s+fn', f.sig): return inject_fn(u, line, opts)[0]
    keep = []; on = False
    for l in opts:
        m = re.match(r'\s*//@(\w+)', l)
        if m: on = m.group(1) in ('spec', 'sig', 'ret', 'world')
        if on: keep.append(l)
    text = inject_fn(u, line, keep + ['//@attr #[verifier::external_body]'], body=' unimplemented!() ')[0]
    return text

def get_macro(path, name):
    t = rsx.load(path); ms = rsx.mask(t)
    m = re.search(r'macro_rules!\s*' + name + r'\s*\{', ms)
    if not m: raise Lost(f'{path}: no macro {name}')
    j = rsx.match(ms, m.end() - 1)
    return t[m.start():j+1]

def build(name, props, vac=False):
    u = Unit(name); u.vac = vac
    src = open(os.path.join(UNITS, name + '.rs')).read()
    # includes
    seen = set()
    def inc(m):      # every file once
        if m.group(1) in seen: return ''
        seen.add(m.group(1)); return open(os.path.join(UNITS, m.group(1))).read()
    # //@trust F: the functions of F with their contracts only; their bodies are proved in the unit that includes F
    def tru(m):
        t = re.sub(r'^(\s*)//@fn ', r'\1//@fnt ', inc(m), flags=re.M)
        u.assumed.append(f'the contracts of {m.group(1)} are used here and proved in the units that include it')
        return re.sub(r'^//@include (\S+)$', r'//@trust \1', t, flags=re.M)
    while re.search(r'^//@(include|trust) (\S+)$', src, re.M):
        src = re.sub(r'^//@include (\S+)$', inc, src, flags=re.M)
        src = re.sub(r'^//@trust (\S+)$', tru, src, flags=re.M)
    lines = src.split('\n')
    out = []; i = 0
    nl = lambda: sum(x.count('\n') + 1 for x in out)
    while i < len(lines):
        l = lines[i]
        m = re.match(r'\s*//@(\w+)\s*(.*)$', l)
        if not m:
            out.append(l); i += 1; continue
        k, a = m.groups()
        if k == 'fnt':
            opts = []; i += 1
            while not re.match(r'\s*//@end', lines[i]): opts.append(lines[i]); i += 1
            i += 1
            out.append(trusted_fn(u, a, opts))
        elif k == 'fn':
            opts = []; i += 1
            while not re.match(r'\s*//@end', lines[i]): opts.append(lines[i]); i += 1
            i += 1
            text, nm, pr, path = inject_fn(u, a, opts, vac)
            first = nl() + 1
            out.append(text)
            u.fns.append((nm, pr or props, path, first, nl()))
            if any('external_body' in x for x in opts): u.fns.pop(); u.assumed.append(f'{path}: {nm} is not verified, its contract is assumed')
        elif k == 'const':
            p, w, n, _ = parse_target(a)
            c = rsx.get_const(p, n, w)
            for x, y, why in GLOBAL_RW: c = re.sub(x, y, c)
            # an associated constant of a trait implementation takes no visibility
            out.append(re.sub(r'^\s*(pub(\([a-z]+\))?\s+)?const\b', 'const' if w and ' for ' in w else 'pub const', c)); i += 1
        elif k == 'item':
            p, h = re.match(r'(\S+)\s+"([^"]+)"', a).groups()
            it = rsx.get_item(p, h)
            # the contracts name private fields
            if a.rstrip().endswith('" pub'): it = re.sub(r'^(\s+)(\w+: )', r'\1pub \2', it, flags=re.M)
            out.append(it); i += 1
        elif k == 'macro':
            p, n = a.split()
            out.append(get_macro(p, n)); i += 1
        elif k == 'py':
            # computed text: a function of units/gen.py
            from . import gen
            fn, *args = shlex.split(a)
            u.cur = nl()
            out.append(getattr(gen, fn)(u, *args)); i += 1
        elif k == 'note':
            u.assumed.append(a); i += 1
        else:
            raise Exception('bad directive ' + l)
    u.text = '\n'.join(out)
    return u

def expanded(name):
    """the crates whose expansion the unit uses"""
    seen = set(); todo = [name + '.rs']; r = set()
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.add(f); t = open(os.path.join(UNITS, f)).read()
        r |= set(re.findall(r'expanded:(\w+)/', t)) | set(re.findall(r'^//@py \w+ (racw?)/', t, re.M))
        todo += re.findall(r'^//@(?:include|trust) (\S+)$', t, re.M)
    return r

def run(u, workdir, rlimit=30, timeout=300, threads=8):
    p = os.path.join(workdir, u.name + '.rs')
    open(p, 'w').write(u.text)
    t = time.time()
    cmd = ['verus', p, '--output-json', '--time', '--multiple-errors', '20', '--rlimit', str(rlimit), '--num-threads', str(threads), '--error-format=json']
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=workdir)
    except subprocess.TimeoutExpired:
        return dict(status='undecided', why='verifier timeout', errors=[], verified=0, secs=time.time() - t, cmd=cmd)
    secs = time.time() - t
    try: j = json.loads(r.stdout)
    except Exception: j = {}
    vr = j.get('verification-results', {})
    errs = []; hard = []
    for l in r.stderr.split('\n'):
        if not l.startswith('{'): continue
        try: d = json.loads(l)
        except Exception: continue
        if d.get('level') != 'error': continue
        msg = d.get('message', '')
        if msg.startswith('aborting due'): continue
        if not d.get('spans'):
            if 'verification' not in msg: hard.append(msg)
            continue
        errs.append(dict(message=msg, code=(d.get('code') or {}).get('code') if d.get('code') else None,
                         lines=[s['line_start'] for s in d['spans']],
                         primary=[s['line_start'] for s in d['spans'] if s.get('is_primary')],
                         text=d.get('rendered', '')))
    res = dict(errors=errs, verified=vr.get('verified', 0), nerr=vr.get('errors', 0), secs=secs, cmd=cmd, raw=r.stderr[-4000:],
               smt_ms=0, breakdown=[])
    try:
        sm = j['times-ms']['smt']; res['smt_ms'] = sm['total']
        for m in sm['smt-run-module-times']:
            for f in m.get('function-breakdown', []): res['breakdown'].append((f['function'], f.get('mode:', ''), f.get('success'), f.get('time', 0)))
    except Exception: pass
    if vr.get('success') is True and vr.get('errors', 1) == 0 and vr.get('verified', 0) > 0:
        res['status'] = 'ok'
    elif vr.get('encountered-vir-error') or not vr or 'errors' not in vr:
        res['status'] = 'undecided'; res['why'] = 'unsupported or ill-typed after extraction: ' + '; '.join(e['message'] for e in errs[:3])
    elif errs and vr.get('errors', 0) == 0:
        res['status'] = 'undecided'; res['why'] = 'ill-formed after extraction: ' + '; '.join(e['message'] for e in errs[:3])
    else:
        rl = res['rl'] = [e for e in errs if 'rlimit' in e['message'].lower() or 'resource limit' in e['message'].lower()]
        defin = [e for e in errs if e not in rl]
        if defin and vr.get('errors', 0) > 0:
            res['status'] = 'failed'; res['errors'] = defin
            if rl: res['why'] = 'and the solver resource limit was reached elsewhere'
        elif rl:
            res['status'] = 'undecided'; res['why'] = 'solver resource limit'
        else:
            res['status'] = 'undecided'; res['why'] = 'no verdict: ' + ';'.join(hard)[:300]
    return res


FNRE = re.compile(r'^\s*(?:pub\s+)?(?:open\s+|closed\s+|uninterp\s+)?(?:broadcast\s+)?(?:proof\s+|exec\s+|spec\s+|const\s+)?(?:fn)\s+(\w+)')
def failed_fns(u, res):
    """[(function name, properties it carries or None for a lemma, source file, error)]"""
    out = []
    lines = u.text.split('\n')
    for e in res['errors']:
        hit = None
        for ls in (e['primary'], e['lines']):
            for (nm, pr, path, a, b) in u.fns:
                if not hit and any(a <= x <= b for x in ls): hit = (nm, pr, path)
        if not hit:
            x = (e['primary'] or e['lines'])[0] - 1
            nm = '?'
            while x >= 0:
                m = FNRE.match(lines[x]) if x < len(lines) else None
                if m: nm = m.group(1); break
                x -= 1
            hit = (nm, None, '')
        # a postcondition can name the properties it belongs to: /*@ID ID*/
        tags = [m.group(1).split() for x in e['lines'] if 0 < x <= len(lines) for m in [re.search(r'/\*@([A-Z0-9 ]+)\*/', lines[x-1])] if m]
        if tags and hit[1] is not None: hit = (hit[0], tags[0], hit[2])
        out.append(hit + (e,))
    return out

def vacuous(name, props, workdir, **kw):
    """functions whose contract lets `assert(false)` through at their entry (must be none)"""
    u = build(name, props, vac=True)
    u.name = name + '_vac'
    r = run(u, workdir, **kw)
    if r['status'] == 'undecided' and 'resource' not in r.get('why', ''): return None, r
    failing = set()
    for nm, pr, path, e in failed_fns(u, r):
        for (n, p, q, a, b) in u.fns:
            if any(a <= x <= b for x in e['lines']): failing.add((n, a))
    for e in r.get('rl', []):  # the solver gave up: not shown to be vacuous
        for (n, p, q, a, b) in u.fns:
            if any(a <= x <= b for x in e['lines']): failing.add((n, a))
    return [n for (n, p, q, a, b) in u.fns if (n, a) not in failing], r
