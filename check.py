#!/usr/bin/env python3
"""check.py <property>   decides one property on /repo's current working tree.

1. the Verus units of the property are rebuilt from the source and verified (vx/);
2. the executable contracts of the property run on the real code (rac/, racw/): a bounded
   companion that supplies a concrete failing input; a failed obligation makes it search longer.
Exit 0: held; exit 1 with a VIOLATION line otherwise."""
import sys, os, json, time, subprocess, hashlib, shutil, threading, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vx import engine, rsx
from props import PROPS, RAC_CRATES
BUILD = os.path.join(HERE, '.build')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.72.1', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET_DIR', 'RUSTC_WRAPPER'): ENV.pop(k, None)

def tree_hash(root):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root, followlinks=False):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'node_modules'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')) or f == 'elusiv.toml':
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def rac_build(crate):
    """builds the executable contracts against /repo; returns (binary or None, note)"""
    td = os.path.join(BUILD, crate); os.makedirs(td, exist_ok=True)
    h = tree_hash('/repo')
    stamp = os.path.join(td, 'stamp')
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != h:
        # never trust time stamps: rebuild every crate that comes from /repo
        fp = os.path.join(td, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith('elusiv'): shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
        if os.path.exists(stamp): os.remove(stamp)
    env = dict(ENV, CARGO_TARGET_DIR=td, RUSTC_WRAPPER=os.path.join(HERE, 'vx', 'rustc_wrap.sh'), VX_CMD_DIR=td)
    try:
        r = subprocess.run(['cargo', 'build', '--offline'], cwd=os.path.join(HERE, crate), env=env, capture_output=True, text=True, timeout=700)
    except subprocess.TimeoutExpired:
        return None, 'build timed out'
    if r.returncode: return None, 'the executable contracts do not build against this tree: ' + ' '.join(re.findall(r'^error.*$', r.stderr, re.M)[:5])
    open(stamp, 'w').write(h)
    return os.path.join(td, 'debug', 'elusiv-' + crate), ''

def known(prop):
    keys = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key="([^"]+)" (.*)', l.strip())
            if m and m.group(1) == prop: keys[m.group(2)] = m.group(3)
    return keys

def rac_run(binp, prop, seed, secs, kf):
    try:
        r = subprocess.run([binp, 'run', prop, str(seed), str(secs), kf, '8'], env=ENV, capture_output=True, text=True, timeout=secs + 200)
        return json.loads(r.stdout.strip().split('\n')[-1])
    except Exception as e:
        return dict(error=str(e)[:300])

def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    cfg = PROPS[prop]
    units = cfg.get('units', [])
    crate = cfg.get('rac')
    work = os.path.join(BUILD, 'vx', prop); os.makedirs(work, exist_ok=True)
    evd = os.path.join(HERE, 'evidence'); os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, 'replay'); os.makedirs(rep, exist_ok=True)
    kn = known(prop)
    kf = os.path.join(work, 'known'); open(kf, 'w').write('\n'.join(kn) + '\n')
    rl = 60 if tier == 'thorough' else 30
    built = {}
    def do_build():
        try: built['rac'] = rac_build(crate)
        except Exception as e: built['rac'] = (None, 'build failed: ' + str(e)[:200])
    th = threading.Thread(target=do_build) if crate else None
    if th: th.start()
    results = {}
    lock = threading.Lock()
    def need(n):
        # units over expanded code wait for the build they come from
        ex = engine.expanded(n)
        if ex and th: th.join()
        with lock:
            for c in sorted(ex - {crate} - set(built)): built[c] = rac_build(c)
    def do_unit(n):
        try:
            need(n)
            u = engine.build(n, cfg.get('uprops', [prop]))
            r = engine.run(u, work, rlimit=rl, timeout=400)
            results[n] = (u, r)
        except rsx.Lost as e:
            results[n] = (None, dict(status='undecided', why='anchor lost: ' + str(e), errors=[], verified=0, nerr=0, secs=0, smt_ms=0, breakdown=[], cmd=[]))
        except Exception as e:
            results[n] = (None, dict(status='undecided', why='extraction failed: ' + repr(e)[:300], errors=[], verified=0, nerr=0, secs=0, smt_ms=0, breakdown=[], cmd=[]))
    vac = {}
    def do_vac(n):
        try:
            need(n)
            vac[n] = engine.vacuous(n, cfg.get('uprops', [prop]), work, rlimit=3, timeout=400)
        except Exception as e: vac[n] = (None, dict(why=repr(e)[:200]))
    ths = [threading.Thread(target=do_unit, args=(n,)) for n in units] + [threading.Thread(target=do_vac, args=(n,)) for n in units]
    for t in ths: t.start()
    for t in ths: t.join()
    if th: th.join()

    notes = []; failed = []; obligations = 0; discharged = 0; fns = []; assumed = []; dropped = []; smt = 0; cmds = []; proved = bool(units)
    for n in units:
        u, r = results[n]
        smt += r.get('smt_ms', 0)
        if r.get('cmd'): cmds.append(' '.join(r['cmd']))
        obligations += r['verified'] + (r.get('nerr') or 0); discharged += r['verified']
        if u:
            fns += [f'{p}::{nm}' for (nm, pr, p, a, b) in u.fns if not pr or prop in pr]
            assumed += u.assumed; dropped += u.dropped
        if r['status'] == 'undecided':
            proved = False; obligations += 0 if r['verified'] else 1
            notes.append(f'NOT PROVED on this tree: unit {n}: {r.get("why")}')
        elif r['status'] == 'failed':
            rel = [(nm, pr, p, e) for nm, pr, p, e in engine.failed_fns(u, r) if pr is None or prop in pr]
            if rel: proved = False; failed += [(n,) + x for x in rel]
            else:
                proved = False
                notes.append(f'NOT PROVED on this tree: unit {n}: obligations of other properties fail: ' + ', '.join(sorted({x[0] for x in engine.failed_fns(u, r)})))
        v, vr = vac.get(n, (None, {}))
        if v:
            proved = False; notes.append(f'NOT PROVED: vacuous contract in unit {n}: {v}')
        elif v is None and r['status'] == 'ok':
            notes.append(f'vacuity guard of unit {n} gave no answer: {str(vr.get("why"))[:150]}')
    # executable contracts
    secs = 120 if tier == 'thorough' else cfg.get('secs', 5)
    if failed or (units and not proved): secs = max(secs, 45)
    rac = None; binp = None
    if crate:
        binp, why = built['rac']
        if not binp: notes.append(why)
        else:
            rac = rac_run(binp, prop, seed, secs, kf)
            if 'error' in rac: notes.append('executable contracts gave no answer: ' + rac['error']); rac = None
    viol = rac.get('violation') if rac else None
    out = []; code = 0
    for k, w in kn.items(): print(f'KNOWN-FINDING: property={prop} {w}')
    if viol or failed:
        code = 1
        path = os.path.join(rep, prop + '.txt')
        with open(path, 'w') as f:
            f.write(f'property {prop}\n')
            if failed:
                f.write('failed obligations:\n')
                for n, nm, pr, p, e in failed: f.write(f'  unit {n}, function {p}::{nm}: {e["message"]}\n')
            if viol:
                f.write(f'\nconcrete failing input, found by running the contract "{viol["name"]}" on the real code:\n{viol["what"]}\n\ntrace:\n')
                for l in viol['trace']: f.write('  ' + l + '\n')
                f.write(f'\nreplay: {binp} replay {prop} {viol["name"]} {viol["case"]}   (after ./check.py {prop} has built it)\n')
            if failed:
                f.write('\nverifier output:\n')
                for n, nm, pr, p, e in failed[:20]: f.write(e['text'][:4000] + '\n')
        for n, nm, pr, p, e in failed[:6]: print(f'obligation failed: {p}::{nm} (unit {n}): {e["message"]}')
        if viol:
            print(f'{viol["name"]}: {viol["what"]}')
            print(f'VIOLATION property={prop} replay={path}')
        else:
            print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
    cov = {}
    if units:
        cov = dict(obligations=obligations, discharged=discharged,
                   checker_cmd=cmds[0] if len(cmds) == 1 else ' && '.join(cmds) or 'verus (not run: the unit could not be extracted)',
                   trusted_base=['Verus 0.2026.09.13 and its SMT back end Z3', 'vstd', 'the mechanical extraction in vx/ (drops recorded under dropped_by_extraction)'] + sorted(set(assumed)),
                   back_end='Verus / Z3', solver_ms=smt, functions_under_contract=sorted(set(fns)), dropped_by_extraction=sorted(set(dropped)),
                   vacuous_contracts=[x for n in units for x in (vac.get(n, (None,))[0] or [])])
        if rac: cov['bounded_companion'] = dict(kind='executable contracts run on the real code (bounded, not counted as proved)', evaluations=rac['evaluations'], distinct_nontrivial=rac['distinct_nontrivial'], samples=rac['samples'], seconds=secs)
    elif rac:
        cov = dict(evaluations=rac['evaluations'], distinct_nontrivial=rac['distinct_nontrivial'], samples=rac['samples'] or ['none'],
                   rule='randomly generated calls and states of the real functions under executable contracts; a case counts as non-trivial when it reaches the postcondition, distinct by its inputs; bounded by time: %ds' % secs)
    else:
        cov = dict(explanation='no answer: ' + '; '.join(notes), evaluations=0, distinct_nontrivial=0, samples=['none'], rule='none')
    cov['notes'] = notes
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg['level'], coverage=cov, assumptions=sorted(set(cfg.get('assumptions', []) + assumed)), wall_s=round(time.time() - t0, 2), violations=code)
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1)
    for n in notes: print('note: ' + n)
    print(f'{prop}: ' + ('VIOLATED' if code else 'held') + (f', {discharged}/{obligations} obligations discharged' if units else '') + (f', {rac["evaluations"]} contract evaluations' if rac else '') + f' ({time.time()-t0:.1f}s)')
    return code

if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        # first build of the executable contracts (dependencies take a while)
        ok = True
        for c in RAC_CRATES:
            b, w = rac_build(c); print(c, b, w); ok = ok and b
        sys.exit(0)
    try: c = main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc()
        print('note: the check could not run; nothing is claimed for this tree')
        c = 0
        try:
            p = sys.argv[1]
            json.dump(dict(property=p, tier='quick', seed=int(os.environ.get('VERIF_SEED', '1')), level=PROPS[p]['level'], coverage=dict(explanation='the check failed: ' + traceback.format_exc()[-500:], notes=[]), wall_s=0.0), open(os.path.join(HERE, 'evidence', p + '.json'), 'w'))
        except Exception: pass
    sys.exit(c)
