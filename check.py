#!/usr/bin/env python3
"""Decides one property of rasp:  check.py <PID> [--tier quick|thorough] [--repo DIR]

1. extracts the functions the property depends on from <repo>/src (extractor/),
2. puts the contracts of contracts/contracts.py on them and has Verus discharge every obligation,
3. replays generated inputs against the real crate (replay/): a monitor when everything was
   discharged, the search for a failing input when an obligation failed, and a bounded stand-in
   for functions the verifier cannot reach.
exit 0: held.  exit 1 + "VIOLATION property=<id> replay=<path>[ no-failing-input-found]": broken.
"""
import concurrent.futures as cf, json, os, re, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib')); sys.path.insert(0, os.path.join(VERIF, 'contracts'))
sys.dont_write_bytecode = True
import contracts as C, vgen, verus

BUILD = os.path.join(VERIF, 'build')
T = {'quick': dict(monitor=4, search=75, bounded=60, verus=170), 'thorough': dict(monitor=60, search=240, bounded=180, verus=250)}

def say(*a):
    print(*a, flush=True)

def cargo(crate, out):
    env = dict(os.environ, CARGO_TARGET_DIR=out, CARGO_NET_OFFLINE='true')
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(VERIF, crate), env=env,
                       capture_output=True, text=True, timeout=420)
    return r.returncode == 0, r.stderr[-4000:]

def build_extractor():
    ok, err = cargo('extractor', os.path.join(BUILD, 'extractor'))
    return (os.path.join(BUILD, 'extractor', 'release', 'extractor') if ok else None), err

def build_replay():
    ok, err = cargo('replay', os.path.join(BUILD, 'replay'))
    return (os.path.join(BUILD, 'replay', 'release', 'replay') if ok else None), err

def harvest(src):
    """literals of the source: sizes and values worth trying"""
    ints, floats = set(), set()
    for d, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith('.rs'): continue
            t = open(os.path.join(d, f), errors='replace').read()
            t = re.split(r'#\[cfg\(test\)\]', t)[0]
            t = re.sub(r'//[^\n]*', '', t)
            for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(?:u\w+|i\w+)?(?![\w.])', t):
                v = int(m.group(1).replace('_', ''))
                if v <= 100000: ints.add(v)
                floats.add(float(v))
            for m in re.finditer(r'(?<![\w.])(\d[\d_]*\.\d*(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+)', t):
                try: floats.add(float(m.group(1).replace('_', '')))
                except ValueError: pass
    return sorted(ints), sorted(floats)

class Replay:
    def __init__(self, fut, src):
        self.fut, self.lits, self.cases, self.evals, self.runs, self.err = fut, harvest(src), 0, 0, [], None
    def run(self, pid, seed, secs, why):
        try:
            exe, err = self.fut.result()
        except Exception as e:
            exe, err = None, repr(e)
        if not exe:
            self.err = 'the replay crate does not build: ' + (err or '')[-600:]
            return None
        cmd = [exe, pid, '--seed', str(seed), '--secs', str(secs), '--ints', ','.join(map(str, self.lits[0])),
               '--floats', ','.join(map(repr, self.lits[1]))]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 90)
            j = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception as e:
            self.err = 'the replay run failed: %r' % e
            return None
        self.cases += j['cases']; self.evals += j['evals']
        self.runs.append({'why': why, 'seconds': secs, 'seed': seed, 'cases': j['cases'], 'comparisons': j['evals'], 'found': bool(j['violation'])})
        if j['violation']:
            v = j['violation']
            v['command'] = ' '.join(cmd[:4] + ['--case', str(v['case'])] + cmd[6:])
            return v
        return None

def mode_name(m):
    if isinstance(m, tuple): return mode_name(m[0]) + '+alg'
    return {None: 'z3', 2: 'z3-nla2', 6: 'z3-nla6'}[m]

class Run:
    """one Verus run of one generated file, with its errors mapped to functions"""
    def __init__(self, o, r):
        self.o, self.r = o, r
        self.fn_errors, self.fn_rlimit, self.unmapped = {}, {}, []
        res = (r['json'] or {}).get('verification-results') or {}
        self.done = not r['timeout'] and bool(res) and not res.get('encountered-vir-error') and 'verified' in res \
            and (not res.get('encountered-error') or res.get('errors', 0) > 0)
        self.verified, self.errors = res.get('verified', 0), res.get('errors', 0)
        tm = (r['json'] or {}).get('times-ms') or {}
        self.smt_ms = (tm.get('smt') or {}).get('total', 0)
        for d in r['diags']:
            if d['level'] != 'error' or d['message'].startswith('aborting due to'): continue
            labs = [o.labels.get(s['line_start']) for s in d['spans']]
            prim = [o.labels.get(s['line_start']) for s in d['spans'] if s['is_primary']]
            labs = [l for l in labs if l]
            inner = [l for l in labs if l['what'] in ('body', 'theorem')]
            sig = [l for l in labs if l['what'] == 'signature']
            own = (inner or sig or [l for l in prim if l] or labs or [None])[0]
            cl = [l['clause'] for l in labs if l.get('clause')]
            e = {'message': d['message'], 'clause': ' '.join(cl[0].split()) if cl else None,
                 'at': [l.get('line') for l in inner if l.get('line')][:3], 'rendered': (d.get('rendered') or '')[:3000]}
            if own is None:
                self.unmapped.append(e); continue
            rl = 'rlimit' in d['message'].lower() or 'resource limit' in d['message'].lower() or 'timed out' in d['message'].lower()
            (self.fn_rlimit if rl else self.fn_errors).setdefault(own['fn'], []).append(e)

def check(pid, tier, repo, seed):
    t0 = time.time()
    P = C.PROPS[pid]
    src = os.path.join(repo, 'src')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': {}, 'assumptions': [], 'wall_s': 0, 'violations': 0}
    edir = os.path.join(VERIF, 'evidence'); os.makedirs(os.path.join(edir, 'replays'), exist_ok=True)
    pool = cf.ThreadPoolExecutor(6)
    rep = Replay(pool.submit(build_replay), src)
    work = tempfile.mkdtemp(prefix='rasp-verif-')
    lim = T[tier]
    notes, bounded = [], {}      # bounded: function or part -> why it is not proved
    failed = {}                  # function -> [errors]
    info = {}

    def gen(ex, stubs, vac=False, alg=False):
        g = vgen.Gen(ex, C, P, stubs=stubs, vacuity=vac, alg=alg)
        o = g.build()
        path = os.path.join(work, '%s%s_%d.rs' % (pid, '_vac' if vac else '', len(os.listdir(work))))
        open(path, 'w').write(o.text())
        return g, o, path

    def verify(o, path, mode, to, threads=8):
        if isinstance(mode, tuple): mode = mode[0]
        return Run(o, verus.run(path, nl=mode, rlimit=P.rlimit, timeout=to, threads=threads))

    try:
        exe, err = build_extractor()
        if not exe: raise RuntimeError('extractor: ' + err)
        req = os.path.join(work, 'req.json')
        # functions with a contract in this property; calls to any other function of the crate are inlined
        keys = set(P.fns) | set(getattr(P, 'request', []))
        rename = {}
        def extract(inline={}):
            json.dump({'fns': sorted(keys), 'inline': inline, 'rename': rename}, open(req, 'w'))
            r = subprocess.run([exe, src, req], capture_output=True, text=True, timeout=120)
            if r.returncode != 0: raise RuntimeError('extraction failed: ' + r.stderr[-1500:])
            return r.stdout
        raw = extract()
        if getattr(P, 'dynamic', None):
            more = set(P.dynamic(json.loads(raw), P)[1]) - keys
            if more:
                keys |= more
                raw = extract()
        rename = vgen.renames(json.loads(raw), C)
        if rename:
            raw = extract()
            notes.append('fields renamed to the names the contracts use: %s' % json.dumps(rename))
        stubs, run, g = {}, None, None
        for attempt in range(6):
            ex = json.loads(raw)
            g, o, path = gen(ex, stubs)
            if g.missing: break
            run = verify(o, path, P.nl or None, lim['verus'])
            if run.done or run.r['timeout']: break
            bad = {f for f in list(run.fn_errors) if f in g.fns and f not in g.stubs and f not in g.assumed}
            if not bad: break
            for f in bad: stubs[f] = 'outside the verifier\'s language: ' + run.fn_errors[f][0]['message'][:300]
        for k, why in g.stubs.items(): bounded[k] = why
        for t, tr, n in ex['all_fns']:
            # an iterator method with a default in std, overridden by the crate: no contract for it
            if t in P.types and tr in ('Iterator', 'ExactSizeIterator') and 'VIter' in P.traits and n not in ('next', 'size_hint', 'len'):
                bounded['%s::%s' % (t, n)] = 'overrides a provided iterator method; it has no contract'
        if g.missing:
            bounded['the whole property'] = 'the contracts no longer fit the code: ' + '; '.join(g.missing)[:600]
            run = None
        elif run.r['timeout']:
            notes.append('mode %s timed out' % mode_name(P.nl or None))
        elif not run.done:
            bounded['the whole property'] = 'the verifier rejects the generated file: ' + json.dumps(list(run.fn_errors.items())[:2] or run.unmapped[:2])[:1200]
            run = None
        if run is not None:
            runs = [(P.nl or None, run)]
            suspect = set(run.fn_errors) | set(run.fn_rlimit) if run.done else None
            if not run.done or suspect or run.unmapped or run.errors:
                others = [m for m in (2, None, 6) if m != (P.nl or None)]
                # the same file under the other arithmetic configurations, and with lemmas on quotients in scope
                _, oa, pa = gen(json.loads(raw), dict(g.stubs), alg=True)
                fs = [(m, pool.submit(verify, o, path, m, min(lim['verus'], 120), 4)) for m in others]
                fs += [((m, 'alg'), pool.submit(verify, oa, pa, m, min(lim['verus'], 120), 4)) for m in (6, 2)]
                runs += [(m, f.result()) for m, f in fs]
            fin = [(m, x) for m, x in runs if x.done]
            if not fin:
                bounded['the whole property'] = 'every solver configuration timed out'
                run = None
            else:
                m0, run = fin[0]
                bad = set(run.fn_errors) | set(run.fn_rlimit)
                settled = {}
                for m, x in fin:
                    if x is run: continue
                    for f in list(bad):
                        if f not in x.fn_errors and f not in x.fn_rlimit:
                            bad.discard(f); settled[f] = mode_name(m)
                base = json.load(open(os.path.join(VERIF, 'contracts', 'baseline.json')))
                # calls of contracted functions the contracts were not written for: inline them instead
                news = {f: sorted(set(g.fns[f]['calls']) - set(base.get(f, {}).get('calls', []))) for f in bad if f in g.fns}
                news = {f: c for f, c in news.items() if c}
                cannot = set()
                if news:
                    g2, o2, p2 = gen(json.loads(extract(news)), dict(g.stubs))
                    if not g2.missing:
                        for m in [P.nl or None] + [m for m in (2, None, 6) if m != (P.nl or None)]:
                            x = verify(o2, p2, m, min(lim['verus'], 90))
                            runs.append((m, x))
                            if not x.done: continue
                            for f in list(bad):
                                if f in news and f not in g2.stubs and f not in x.fn_errors and f not in x.fn_rlimit:
                                    bad.discard(f); settled[f] = mode_name(m) + ', with %s inlined' % ', '.join(news[f])
                            if not bad & set(news): break
                    cannot = {f for f in news if f in g2.stubs} if not g2.missing else set(news)
                for f in sorted(bad):
                    errs = [e for _, x in fin for e in x.fn_errors.get(f, [])]
                    hard = all(f in x.fn_errors for _, x in fin if f in x.fn_errors or f in x.fn_rlimit) and errs
                    if not errs:
                        bounded[f] = 'the solver gave up (resource limit)'
                    elif f not in g.fns:
                        # a lemma or client theorem: its text does not depend on the code's bodies
                        bounded[f] = 'not discharged: ' + errs[0]['message']
                    elif rename:
                        bounded[f] = 'fields were renamed and the contract does not fit: ' + errs[0]['message']
                    elif f in cannot:
                        bounded[f] = 'it calls functions it did not call when its contract was written: ' + errs[0]['message']
                    elif vgen.loop_shape(g.fns[f]) != base.get(f, {}).get('loops', []):
                        bounded[f] = 'its loop changed and the loop invariant of the contract does not fit: ' + errs[0]['message']
                    elif getattr(P, 'dynamic', None) and f.endswith('::process'):
                        bounded[f] = 'its own contract (decided by other properties) fails here'
                    else:
                        failed[f] = errs
                info = dict(verified=run.verified, errors=run.errors, settled=settled,
                            modes=[(mode_name(m), x.done, round(x.r['wall'], 1), x.smt_ms) for m, x in runs],
                            cmd=' '.join(run.r['cmd']))
                # vacuity guard
                if not failed:
                    gv, ov, pv = gen(json.loads(raw), dict(g.stubs), vac=True)
                    v = verify(ov, pv, P.nl or None, lim['verus'])
                    if v.done:
                        vac = [f for f in gv.under_contract if f not in v.fn_errors and f not in v.fn_rlimit]
                        info['vacuity'] = {'checked': len(gv.under_contract), 'vacuous': vac}
                        for f in vac: bounded[f] = 'its end is unreachable under its contract (vacuous)'
                    else:
                        notes.append('vacuity run did not finish')
    except Exception as e:
        bounded['the whole property'] = 'the verifier pipeline did not run: %s' % (repr(e)[:600])
        notes.append(traceback.format_exc()[-1500:])
        run, g = None, None

    # -- replay on the real crate
    if failed: why, secs = 'search for a failing input of the failed obligation', lim['search']
    elif bounded: why, secs = 'bounded stand-in for what is not proved', lim['bounded']
    else: why, secs = 'monitor', lim['monitor']
    found = rep.run(pid, seed, secs, why)
    if rep.err: notes.append(rep.err)

    # -- verdict
    theorem_n = len(re.findall(r'\bfn \w+', P.theorems or ''))
    cov = ev['coverage']
    nclauses = len(g.clauses) if g else 0
    cov.update({
        'obligations': (info.get('verified', 0) + info.get('errors', 0)) if info else 0,
        'discharged': (info.get('verified', 0) + len(info.get('settled', {}))) if info else 0,
        'checker_cmd': info.get('cmd', 'verus (not run)'),
        'trusted_base': ['verus %s and vstd' % '0.2026.09.13', 'Z3 (bundled with Verus)', 'extractor/ (mechanical rewriting, DESIGN.md "What the extraction changes")',
                         'contracts/shim.rs: axioms on Float/NumCast/Vec iterators and on sin, cos, exp, pow, log10, sqrt over the reals'],
        'backends': [{'solver': m, 'finished': d, 'wall_s': w, 'smt_ms': s} for m, d, w, s in info.get('modes', [])],
        'functions_under_contract': sorted(g.under_contract) if g else [],
        'contract_clauses': nclauses,
        'assumed_contracts': dict(g.assumed) if g else {},
        'bounded_not_proved': bounded,
        'settled_by_another_solver_configuration': info.get('settled', {}),
        'vacuity_guard': info.get('vacuity', {}),
        'replay': rep.runs,
        'evaluations': rep.cases,
        'lemmas_and_theorems': theorem_n,
        'notes': notes,
    })
    ev['assumptions'] = [
        'generic code is verified for any T: Float whose finite operations are the real operations (no rounding, no overflow); f32/f64 rounding is covered by the replay with tolerances only',
        'num::Float / NumCast / iterator adaptors behave as contracts/shim.rs states',
        'usize is 64 bits',
    ] + ['assumed contract: %s (%s)' % kv for kv in (g.assumed.items() if g else [])] \
      + ['%s: bounded, not proved (%s)' % kv for kv in bounded.items()]
    rc = 0
    if found or failed:
        rc = 1
        path = os.path.join(edir, 'replays', '%s.json' % pid)
        body = {'property': pid, 'failed_obligations': failed, 'failing_input': found, 'verifier': info, 'bounded': bounded,
                'note': 'rebuild replay/ and run failing_input.command to see it fail' if found else
                        'the verifier accepted this obligation on the unchanged tree and rejects it now; no failing input was found in %d cases' % rep.cases}
        json.dump(body, open(path, 'w'), indent=1)
        ev['violations'] = max(1, len(failed))
        for f, es in failed.items():
            for e in {(e['message'], e['clause']): e for e in es}.values(): say('FAILED OBLIGATION %s: %s: %s' % (f, e['message'], e['clause'] or '; '.join(e['at'])))
        for f, w in bounded.items(): say('BOUNDED %s: %s' % (f, w[:300]))
        if found: say('FAILING INPUT case %s: %s' % (found['case'], found['message'][:600]))
        say('VIOLATION property=%s replay=%s%s' % (pid, path, '' if found else ' no-failing-input-found'))
    else:
        for f, w in bounded.items(): say('BOUNDED %s: %s' % (f, w[:300]))
        say('OK property=%s: %d of %d obligations discharged, %d functions under contract, %d replayed cases'
            % (pid, cov['discharged'], cov['obligations'], len(cov['functions_under_contract']), rep.cases))
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(edir, pid + '.json'), 'w'), indent=1)
    subprocess.run(['rm', '-rf', work])
    return rc

def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('KNOWN-FINDING: property=%s ' % pid): say(l.rstrip())

def main():
    a = sys.argv[1:]
    if a[:1] == ['--setup']:
        r = [build_extractor(), build_replay()]
        for exe, err in r:
            if not exe: say(err)
        sys.exit(0 if r[0][0] else 1)
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if tier not in T: tier = 'quick'
    repo = a[a.index('--repo') + 1] if '--repo' in a else '/repo'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    known_findings(pid)
    sys.exit(check(pid, tier, repo, seed))

if __name__ == '__main__':
    main()
