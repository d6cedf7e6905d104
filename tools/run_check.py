#!/usr/bin/env python3
"""run_check.py ID [quick|thorough] - decides one property on the current tree (see DESIGN.md).

 1. Every Verus unit of the property is regenerated from the current sources and verified: the
    deciding step. A failed obligation that concerns the property is a violation.
 2. The contracts are monitored on the real code (native crate ../monitor): the bounded stand-in for
    what is assumed, and the search for a concrete failing input when an obligation fails.
Exit 0 or 1 only."""
import sys, os, json, re, subprocess, time, shutil, tempfile, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vx
import props
import floatax

REPO = os.environ.get('CMAES_REPO', '/repo')
BUILD = os.environ.get('CMAES_BUILD', os.path.join(VERIF, '.build'))
VERUS = shutil.which('verus') or '/usr/local/bin/verus'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
FEATURE = dict(lib='h_lib', state='h_state', history='h_history', termination='h_termination',
               sampling='h_sampling', plotting_mod='h_plot', restart_mod='h_restart')
# failed obligations; everything else (rustc errors, unsupported code, solver limits, overflow
# checks) leaves the proof undecided
DEFINITE = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed',
            'invariant not satisfied', 'loop invariant', 'unable to prove', 'assertion not satisfied',
            'cannot show invariant', 'failed this postcondition', 'constructed value may fail to meet its declared type invariant')

def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        def s(b):
            return b.decode('utf8', 'replace') if isinstance(b, bytes) else (b or '')
        return -1, s(x.stdout), s(x.stderr) + '\ntimeout'
    except OSError as x:
        return -2, '', str(x)

# ---------------------------------------------------------------- native monitor
def build_monitor():
    """returns (binary or None, features, notes)"""
    notes = []
    tgt = os.path.join(BUILD, 'monitor')
    os.makedirs(tgt, exist_ok=True)
    hooks = os.path.join(tgt, 'hooks')
    crate = os.path.join(tgt, 'crate')
    src = os.path.join(VERIF, 'monitor')
    for d in (hooks, crate):
        os.makedirs(d, exist_ok=True)
    def put(p, t):
        if not os.path.exists(p) or open(p).read() != t:
            open(p, 'w').write(t)
    for f in glob.glob(src + '/hooks/*.rs'):
        put(os.path.join(hooks, os.path.basename(f)), open(f).read())
    os.makedirs(crate + '/src', exist_ok=True)
    for f in glob.glob(src + '/src/*.rs'):
        put(os.path.join(crate, 'src', os.path.basename(f)), open(f).read())
    put(crate + '/Cargo.toml', open(src + '/Cargo.toml').read().replace('path = "/repo"', 'path = "%s"' % REPO))
    if not os.path.exists(crate + '/Cargo.lock'):
        shutil.copy(src + '/Cargo.lock', crate + '/Cargo.lock')
    feats = set(FEATURE.values())
    blank = set()
    for attempt in range(5):
        for f in glob.glob(src + '/hooks/*.rs'):
            n = os.path.basename(f)[:-3]
            put(os.path.join(hooks, n + '.rs'), '// dropped: does not fit the sources\n' if n in blank else open(f).read())
        env = dict(CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(tgt, 'target'), CMAES_VERIF_SPECS=hooks,
                   RUSTFLAGS='--cfg cmaes_verif', PATH='/root/.cargo/bin:' + os.environ.get('PATH', ''))
        rc, o, e = sh(['cargo', 'build', '--release', '--offline', '--no-default-features'] + (['--features', ','.join(sorted(feats))] if feats else [])
                      + ['--message-format', 'short'], 400, env, crate)
        if rc == 0:
            b = os.path.join(tgt, 'target', 'release', 'monitor')
            return b, sorted(feats), notes
        bad = set()
        for n in FEATURE:
            if re.search(r'(^|[/\s])%s\.rs:\d+' % n, e) and re.search(re.escape(hooks) + r'[^\n]*/%s\.rs|hooks/%s\.rs' % (n, n), e):
                bad.add(n)
        bad -= blank
        if not bad:
            # the hooks compile but the monitor does not, or the library does not: drop all hooks once
            if blank == set(FEATURE):
                notes.append('monitor does not build: ' + first_error(e))
                return None, [], notes
            bad = set(FEATURE) - blank
        notes.append('hooks dropped (%s): %s' % (', '.join(sorted(bad)), first_error(e)))
        blank |= bad
        feats = {FEATURE[n] for n in FEATURE if n not in blank}
        if 'h_lib' not in feats:
            feats = set()
            blank = set(FEATURE)
    return None, [], notes

def first_error(e):
    for l in e.split('\n'):
        if 'error' in l:
            return l.strip()[:300]
    return e.strip()[-300:]

def run_monitor(binary, pid, seed, cases, secs):
    rc, o, e = sh([binary, 'check', pid, str(seed), str(cases), str(secs)], secs + 200)
    for l in reversed(o.strip().split('\n')):
        if l.startswith('{'):
            try:
                return json.loads(l)
            except ValueError:
                pass
    return dict(error='monitor ended with %s: %s' % (rc, (e or o)[-400:]))

# ---------------------------------------------------------------- Verus
def run_unit(unit, work):
    """generate and verify one unit"""
    res = dict(unit=unit, status='undecided', reason='', failures=[], functions=[], verified=0, errors=0, smt_ms=0, subs=[], text='')
    tmpl = 'units/%s.vrs' % unit
    try:
        text, items, drops = vx.generate(REPO, os.path.join(VERIF, 'verus'), tmpl)
        ptext, pitems, _ = vx.generate(REPO, os.path.join(VERIF, 'verus'), tmpl, probe=True)
    except vx.LostAnchor as x:
        res['reason'] = 'lost anchor: %s' % x
        return res
    except Exception as x:
        res['reason'] = 'extraction failed: %r' % x
        return res
    res['text'], res['subs'] = text, drops
    path = os.path.join(work, unit + '.rs')
    open(path, 'w').write(text)
    ppath = os.path.join(work, unit + '_probe.rs')
    open(ppath, 'w').write(ptext)
    args = ['--output-json', '--time', '--error-format=json', '--multiple-errors', '20']
    with ThreadPoolExecutor(2) as ex:
        fa = ex.submit(sh, [VERUS, path, '--num-threads', '4'] + args, 300, None, work)
        fb = ex.submit(sh, [VERUS, ppath, '--num-threads', '4'] + args[:-1] + ['1'], 300, None, work)
        rc, o, e = fa.result()
        prc, po, pe = fb.result()
    fns = [d for a, b, d in items if d.startswith('fn ')]
    res['functions'] = fns
    try:
        j = json.loads(o)
    except ValueError:
        res['reason'] = 'verifier gave no result: %s' % (e.strip()[-300:])
        return res
    vr = j.get('verification-results', {})
    res['verified'] = vr.get('verified', 0)
    res['errors'] = vr.get('errors', 0)
    t = j.get('times-ms', {})
    res['smt_ms'] = t.get('smt', {}).get('total', 0) if isinstance(t.get('smt'), dict) else 0
    res['total_ms'] = t.get('total', 0)
    lines = text.split('\n')
    other = []
    for l in e.split('\n'):
        if not l.startswith('{'):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('level') != 'error':
            continue
        msg = d.get('message', '')
        if msg.startswith('aborting due to') or 'verification results' in msg:
            continue
        spans = [s for s in d.get('spans', []) if os.path.basename(s.get('file_name', '')) == unit + '.rs']
        if any(k in msg for k in DEFINITE):
            prim = [s for s in spans if s.get('is_primary')] or spans
            clause = [s for s in spans if 'failed' in (s.get('label') or '')]
            fn = where(items, [s['line_start'] for s in (clause if msg.startswith('postcondition') else []) + prim])
            tl = (clause if msg.startswith('postcondition') and clause else prim)
            tags = set()
            for s in tl:
                for k in range(s['line_start'] - 1, min(s['line_end'], len(lines))):
                    tags |= set(re.findall(r'/\*((?:C\d\d ?)+)\*/', lines[k]) and re.findall(r'C\d\d', ' '.join(re.findall(r'/\*((?:C\d\d ?)+)\*/', lines[k]))))
            if not tags:
                # an obligation inside a body carries what the contract of the function is for
                for a, b, dsc in items:
                    if dsc == fn and any(a <= x['line_start'] <= b for x in prim):
                        tags |= set(re.findall(r'C\d\d', ' '.join(re.findall(r'/\*((?:C\d\d ?)+)\*/', '\n'.join(lines[a - 1:b])))))
            clause_text = [lines[s['line_start'] - 1].strip() for s in clause or prim]
            res['failures'].append(dict(message=msg, function=fn, tags=sorted(tags), clause=clause_text, rendered=d.get('rendered', '')))
        else:
            other.append(msg + ' ' + ' '.join('%s:%s' % (s.get('file_name'), s.get('line_start')) for s in d.get('spans', [])[:1]))
    if other:
        res['status'], res['reason'] = 'undecided', 'not verified: ' + '; '.join(other)[:400]
        if vr.get('encountered-vir-error') or not vr or 'verified' not in vr:
            res['failures'] = []
    elif res['failures']:
        res['status'] = 'failed'
    elif vr.get('success') and res['errors'] == 0 and res['verified'] > 0:
        res['status'] = 'verified'
    else:
        res['reason'] = 'verifier ended with %s: %s' % (rc, e.strip()[-300:])
    if unit in props.THEORY and res['status'] == 'failed':
        res['status'], res['failures'] = 'undecided', []
        res['reason'] = 'the theorem is not re-derived from the contracts'
    # vacuity guard: with an unprovable postcondition added to each extracted function, each must fail
    if res['status'] == 'verified':
        failed = set()
        plines = ptext.split('\n')
        for l in pe.split('\n'):
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('level') == 'error' and 'postcondition not satisfied' in d.get('message', ''):
                    for s in d.get('spans', []):
                        k = s['line_start'] - 1
                        if k < len(plines) and 'probe(' in plines[k]:
                            failed |= set(re.findall(r'probe\((\d+)int\)', plines[k]))
        # a lemma whose proof ends in any error has not proved its probe either
        spans = set()
        for l in pe.split('\n'):
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('level') == 'error':
                    spans |= {x['line_start'] - 1 for x in d.get('spans', [])}
        for k, pl in enumerate(plines):
            m = re.search(r'probe\((\d+)int\)', pl)
            if m and int(m.group(1)) >= vx.LEMMA:
                a = next(n for n in range(k, -1, -1) if 'proof fn ' in plines[n])
                z = k if pl.rstrip().endswith('}') else next((n for n in range(k, len(plines)) if plines[n].startswith('}')), k)
                if any(a <= n <= z for n in spans):
                    failed.add(m.group(1))
        want = set(re.findall(r'probe\((\d+)int\)', ptext))
        res['probes'] = [len(failed & want), len(want)]
        if want - failed:
            res['status'] = 'undecided'
            res['reason'] = 'vacuity guard: probe(s) %s verified' % ', '.join(sorted(want - failed))
    return res

def where(items, linenos):
    for n in linenos:
        for a, b, d in items:
            if a <= n <= b and d.startswith('fn '):
                return d
    return '(lemma or specification)'

def fname(desc):
    m = re.match(r'fn (?:.*::)?(\w+) \(', desc)
    return m.group(1) if m else ''

def concerns(pid, unit, f):
    """does this failed obligation concern the property?"""
    if f['tags']:
        return pid in f['tags']
    fns = props.PROPS[pid]['units'][unit]
    if fns is None:
        return False
    return fns == '*' or fname(f['function']) in fns or not fname(f['function'])

def trusted(text, done=()):
    """mechanical scan of a generated unit for what is assumed"""
    out = []
    ax = [a for a in re.findall(r'axiom fn (\w+)', text) if a not in done]
    if ax:
        out.append('axioms: ' + ', '.join(ax))
    asp = re.findall(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]', text)
    if asp:
        out.append('assumed std contracts: ' + ', '.join(asp))
    eb = re.findall(r'external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:proof )?fn (\w+)', text)
    if eb:
        out.append('external_body contracts (%d): %s' % (len(eb), ', '.join(sorted(set(eb)))))
    n = len(re.findall(r'\b(?:assume|admit)\(', text))
    if n:
        out.append('assume/admit statements: %d' % n)
    return out

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    P = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix='cmaes-%s-' % pid.lower())
    try:
        rc = check(pid, tier, P, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(pid, tier, P, work, t0):
    budget = P.get('secs', 15) if tier == 'quick' else P.get('thorough_secs', 240)
    with ThreadPoolExecutor(8) as ex:
        mon = ex.submit(build_monitor)
        fax = ex.submit(floatax.discharge)
        units = list(ex.map(lambda u: run_unit(u, work), list(P['units'])))
        binary, feats, notes = mon.result()
        float_axioms = fax.result()
    nat = dict(error='monitor not built: ' + '; '.join(notes)) if not binary else None
    failed = [(u, f) for u in units for f in u['failures'] if concerns(pid, u['unit'], f)]
    undecided = [u for u in units if u['status'] == 'undecided']
    # premises of a theorem: units whose failures are another property's
    for u in units:
        if P['units'][u['unit']] is None or (u['unit'] not in props.THEORY and props.THEORY & set(P['units'])):
            if u['status'] == 'failed' and not any(x is u for x, f in failed):
                undecided.append(dict(u, reason='premise failed: ' + '; '.join(sorted({f['function'] for f in u['failures']}))[:300]))
    if binary:
        secs = budget * (3 if (failed or undecided) else 1)
        nat = run_monitor(binary, pid, SEED, P.get('cases', 10 ** 9), secs)
    replays = os.path.join(BUILD, 'replay')
    os.makedirs(replays, exist_ok=True)
    known = []
    for k in props.KNOWN.get(pid, []):
        # the finding is demonstrated on the current tree before it is printed
        if binary and k.get('case') is not None:
            r, o, e = sh([binary, 'finding', k['case']], 100)
            if r == 1:
                known.append(k['what'])
    violations = []
    v = (nat or {}).get('violation')
    if failed or v:
        rp = os.path.join(replays, '%s.%s' % (pid, 'sh' if v else 'txt'))
        with open(rp, 'w') as f:
            if v:
                f.write('#!/bin/bash\n# replays a failing input of %s against the code in %s; exit 1 = violated\n' % (pid, REPO))
                f.write('# case: %s\n# what: %s\n' % (str(v['scenario']).replace('\n', ' '), str(v['what']).replace('\n', ' ')))
                f.write('exec %s replay %s %s\n' % (binary, pid, v['case']))
            for u, o in failed:
                c = '# ' if v else ''
                f.write(c + 'failed obligation: %s in %s (unit %s)\n' % (o['message'], o['function'], u['unit']))
                for l in o['clause']:
                    f.write(c + '  clause: %s\n' % l)
                for l in o['rendered'].split('\n'):
                    f.write(c + l + '\n')
        for u, o in failed:
            print('failed obligation: %s in %s: %s' % (o['message'], o['function'], ' | '.join(o['clause'])[:300]))
        if v:
            print('failing input: %s\n  %s' % (v['scenario'], v['what']))
            violations.append('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    # ---------------- evidence
    obligations = sum(u['verified'] + u['errors'] for u in units)
    discharged = sum(u['verified'] for u in units)
    tb = list(props.TRUSTED)
    fdone = {k for k, v in float_axioms.items() if v.startswith('discharged')}
    for u in units:
        tb += ['%s: %s' % (u['unit'], x) for x in trusted(u['text'], fdone)]
    fns = sorted({f for u in units if u['status'] != 'undecided' or u['verified'] for f in u['functions']})
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='verus <unit>.rs --output-json --time --multiple-errors 20 (units generated by tools/vx.py from %s/src)' % REPO,
        trusted_base=tb,
        functions_under_contract=fns,
        units=[dict(unit=u['unit'], status=u['status'], reason=u['reason'], verified=u['verified'], errors=u['errors'],
                    back_end='Verus / Z3', smt_ms=u.get('smt_ms'), total_ms=u.get('total_ms'), vacuity_probes=u.get('probes'), source_rewritings=u['subs']) for u in units],
        bounded_monitor=dict(label='bounded: run-time checking of the contracts on the real code; never counted as proved',
                             hooks=feats, notes=notes, result={k: x for k, x in (nat or {}).items() if k != 'samples'}),
        evaluations=int((nat or {}).get('cases', 0)), distinct_nontrivial=int((nat or {}).get('nontrivial', 0)),
        rule='random scenarios from VERIF_SEED, one seed per case; non-trivial: at least one contract of the property was evaluated on it',
        samples=(nat or {}).get('samples', [])[:3],
        known_findings=known,
        float_axioms=dict(what='axioms of the float model, each discharged on IEEE 754 binary64 for all values by an SMT solver (tools/floatax.py); not in trusted_base', result=float_axioms),
    )
    if not P['units']:
        cov['explanation'] = P.get('explanation', '')
    ev = dict(property=pid, tier=tier, seed=SEED, level=P['level'], coverage=cov,
              assumptions=P.get('assumptions', []) + ['proof undecided for unit %s: %s' % (u['unit'], u['reason']) for u in undecided]
              + ([nat['error']] if nat and 'error' in nat else []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for u in units:
        print('%s: %s, %d verified, %d errors %s' % (u['unit'], u['status'], u['verified'], u['errors'], u['reason']))
    if nat:
        print('monitor: %s cases, %s non-trivial, hooks %s %s' % (nat.get('cases'), nat.get('nontrivial'), ','.join(feats), nat.get('error', '')))
    if violations:
        for l in violations:
            print(l)
        return 1
    if (not nat or 'error' in nat) and not any(u['status'] == 'verified' for u in units):
        print('no answer: nothing was decided')
        return 2
    return 0

if __name__ == '__main__':
    main()
