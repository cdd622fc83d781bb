#!/opt/veriftools/pyvenv/bin/python3
"""Decide one property:  run_check.py C04 [--tier quick|thorough]

1. deductive step: every contract unit of the property is verified against /repo's current source (pyver.prove);
2. the same contracts are executed on the real code (pyver.conc): cross-check, falsifier and replay;
3. verdict, evidence file, VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, time, itertools, subprocess, argparse, tempfile, shutil, traceback
import multiprocessing as mp
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
REPO = os.environ.get('PYVER_REPO', '/repo')
PY = '/opt/venv/bin/python'

def prop_entry(pid):
    for l in open(os.path.join(V, 'properties.jsonl')):
        d = json.loads(l)
        if d['id'] == pid: return d
    raise SystemExit('unknown property %s' % pid)

def units_of(pid):
    """[(qual, enum assignment)] of the property's contracts"""
    from pyver.interp import Engine
    from pyver.values import PClass
    from pyver import vsem, npsem
    from pyver.prove import pyval
    eng = Engine(REPO, V)
    mod = 'contracts.' + pid.lower()
    m = eng.load(mod)
    out = []
    for k, c in m.ns.items():
        if not isinstance(c, PClass) or c.module.name != mod: continue
        if k.endswith('Base') or c.lookup('init')[0] is None or c.lookup('prop')[0] is None: continue
        get = lambda n, d: pyval(c.lookup(n)[1]) if c.lookup(n)[0] is not None else d
        params = get('params', {})
        en = {}
        for n, kd in params.items():
            if kd == 'bool': en[n] = [True, False]
            elif isinstance(kd, (list, tuple)): en[n] = list(kd)
        names = list(en)
        conf = dict(quick_only=get('tier', None), mode=get('mode', 'proof'), uses=get('uses', {}), bounded=get('bounded', None), proof_enums=get('proof_enums', None))
        combos = [dict(zip(names, vals)) for vals in itertools.product(*[en[n] for n in names])]
        out.append((mod + ':' + k, combos, conf))
    return out

def fr(v):
    from fractions import Fraction
    if isinstance(v, Fraction): return float(v)
    return v

def work(job):
    """verify one unit in a worker process"""
    qual, enums, conf, budget, tier = job
    from pyver.interp import Engine
    from pyver import vsem, npsem, terms as T
    from pyver.prove import Unit
    from pyver.values import Unsupported, PyRaise
    import z3
    t0 = time.time()
    T.STATS.__init__()
    out = {'unit': qual, 'enums': {k: fr(v) for k, v in enums.items()}, 'status': None}
    uses = conf.get('uses') or {}
    modes = ['modular', 'inlined'] if uses else ['inlined']
    for mode in modes:
        eng = Engine(REPO, V)
        eng.subst = dict(uses)
        eng.inlined = mode == 'inlined'
        u = None
        smt = []
        if tier == 'thorough':
            T.OPTS['smt2'] = lambda nm, pc, goal: smt.append((nm, T.smt2_of(list(pc) + [z3.Not(goal)]))) if len(smt) < 400 else None
        try:
            u = Unit(eng, qual, enums, deadline=t0 + budget)
            u.run()
            bad = [n for n, d in u.obls.items() if d['refuted']]
            unk = [n for n, d in u.obls.items() if d['unknown'] and not d['refuted']]
            vac = [n for n, d in u.obls.items() if d['valid'] and not d['refuted'] and not d['unknown'] and not d.get('reach') and 'raises no exception' not in n]
            nob = sum(d['valid'] for d in u.obls.values())
            out['status'] = 'failed' if bad else 'unknown' if unk else 'proved' if nob else 'empty'
            out.update(failed=bad, undecided=unk, vacuous=vac, obligations={n: d for n, d in u.obls.items()}, witness=u.witness, invariants=u.invariants,
                       discharged=nob, total=sum(d['valid'] + d['refuted'] + d['unknown'] for d in u.obls.values()), inductive=getattr(u, 'inductive', 0))
        except Unsupported as e:
            out['status'] = 'unsupported'; out['why'] = str(e)
        except PyRaise as e:
            out['status'] = 'unsupported'; out['why'] = 'contract raised %s' % e
        except RecursionError:
            out['status'] = 'unsupported'; out['why'] = 'recursion'
        except Exception as e:
            out['status'] = 'unsupported'; out['why'] = 'internal: ' + traceback.format_exc()[-600:]
        out['mode'] = mode
        out['functions'] = sorted(eng.executed)
        out['assumed'] = dict(eng.assumed)
        if mode == 'modular' and out['status'] != 'proved': continue
        break
    if mode == 'modular': out['contracts_used'] = uses
    out['solver'] = {'queries': T.STATS.queries, 'seconds': round(T.STATS.time, 2), 'ring_identities': T.STATS.ring}
    if tier == 'thorough' and out['status'] == 'proved':
        out['cvc5'] = cvc5_pass(smt, budget)
    out['wall_s'] = round(time.time() - t0, 2)
    return out

def cvc5_pass(smt, budget):
    r = {'unsat': 0, 'unknown': 0, 'sat': 0}
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='pyver_smt')
    try:
        for j, (nm, txt) in enumerate(smt):
            if time.time() - t0 > min(120, budget): r['skipped'] = len(smt) - j; break
            p = os.path.join(d, 'q.smt2')
            open(p, 'w').write('(set-logic ALL)\n' + txt)
            try:
                o = subprocess.run(['cvc5', '--tlimit=4000', p], capture_output=True, text=True, timeout=10).stdout.strip().split('\n')[0]
            except subprocess.TimeoutExpired: o = 'unknown'
            r[o if o in r else 'unknown'] += 1
            if o == 'sat': r.setdefault('disagree', []).append(nm)
    finally: shutil.rmtree(d, ignore_errors=True)
    r['seconds'] = round(time.time() - t0, 1)
    return r

def proc_main(job, q):
    try: q.put((job[0], json.dumps(job[1], default=str), work(job)))
    except BaseException as e: q.put((job[0], json.dumps(job[1], default=str), {'unit': job[0], 'enums': {}, 'status': 'unsupported', 'why': 'worker: %r' % e}))

def run_pool(jobs, n, kill_after):
    """one process per unit, at most n at a time, each killed when over budget"""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pend, live, res = list(jobs), [], []
    while pend or live:
        while pend and len(live) < n:
            j = pend.pop(0)
            p = ctx.Process(target=proc_main, args=(j, q), daemon=True)
            p.start(); live.append((p, j, time.time()))
        try:
            while True:
                qual, en, r = q.get(timeout=0.05)
                res.append(r)
                live = [(p, j, t) for p, j, t in live if not (j[0] == qual and json.dumps(j[1], default=str) == en)]
        except Exception: pass
        for p, j, t in list(live):
            dead = not p.is_alive()
            if dead or time.time() - t > kill_after:
                if dead and time.time() - t < 0.5: continue
                if dead:
                    # result may still be in the pipe
                    try:
                        qual, en, r = q.get(timeout=1.0)
                        res.append(r)
                        live = [(pp, jj, tt) for pp, jj, tt in live if not (jj[0] == qual and json.dumps(jj[1], default=str) == en)]
                        continue
                    except Exception: pass
                p.kill()
                res.append({'unit': j[0], 'enums': j[1], 'status': 'unsupported', 'why': 'time budget' if not dead else 'worker died'})
                live = [x for x in live if x[0] is not p]
    return res

def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYVER_REPO=REPO, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             NUMBA_DISABLE_JIT='0', TF_CPP_MIN_LOG_LEVEL='3')
    return e

def start_conc(units, seconds, seed, files, scratch, name, hints=(), **kw):
    p = os.path.join(scratch, name + '.json')
    json.dump(dict(units=units, seconds=seconds, seed=seed, files=files, hints=list(hints), **kw), open(p, 'w'), default=str)
    out = open(os.path.join(scratch, name + '.out'), 'w')
    pr = subprocess.Popen([PY, '-B', os.path.join(V, 'pyver', 'conc.py'), 'run', p], stdout=out, stderr=subprocess.STDOUT, env=env(), cwd=scratch, start_new_session=True)
    return pr, out.name

def end_conc(h, timeout):
    pr, f = h
    try: pr.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(pr.pid, 9); pr.wait()
    txt = open(f, errors='replace').read()
    for l in txt.split('\n'):
        if l.startswith('RESULT '): return json.loads(l[7:])
    return {'findings': [], 'runs': 0, 'failed_to_run': txt[-1500:]}

def known_findings(pid):
    out = []
    p = os.path.join(V, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#'): continue
            d = json.loads(l)
            if d.get('status') == 'known' and d.get('property') == pid: out.append(d)
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--noproof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.prop, a.tier
    t0 = time.time()
    ent = prop_entry(pid)
    files = []
    for f in ent['anchors']['files']:
        p = os.path.join(REPO, f)
        if os.path.isdir(p): files += [os.path.join(d, x) for d, _, xs in os.walk(p) for x in xs if x.endswith('.py')]
        else: files.append(p)
    scratch = tempfile.mkdtemp(prefix='pyver_%s_' % pid)
    try:
        return decide(pid, tier, a, ent, files, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def decide(pid, tier, a, ent, files, scratch, t0):
    thorough = tier == 'thorough'
    err = None
    try:
        us = units_of(pid)
    except BaseException as e:
        us, err = [], traceback.format_exc()[-800:]
    budget = 500 if thorough else 330
    cunits, jobs = [], []
    for qual, combos, conf in us:
        for en in combos:
            e2 = {k: fr(v) for k, v in en.items()}
            cunits.append([qual, e2])
            if conf['mode'] == 'proof' and (conf['proof_enums'] is None or all(en.get(k) in v for k, v in conf['proof_enums'].items())):
                jobs.append((qual, en, conf, budget, tier))
    if err is not None:
        # contracts could not be loaded symbolically: run them on the real code only
        mod = 'contracts.' + pid.lower()
        cunits = discover_concrete(mod)
    csec = 120 if thorough else 14 if len(cunits) < 24 else 35
    groups = [g for g in (cunits[0::2], cunits[1::2]) if g] if len(cunits) > 1 else [cunits]
    hs = [start_conc(g, csec, a.seed + i, files, scratch, 'c%d' % i, minruns=15 if not thorough else 60) for i, g in enumerate(groups) if g]
    res = run_pool(jobs, 6, budget + 30) if not a.noproof else []
    conc = [end_conc(h, csec + 120) for h in hs]
    findings = [f for c in conc for f in c['findings']]
    failed = [r for r in res if r['status'] == 'failed']
    weak = [r for r in res if r['status'] in ('unsupported', 'unknown', 'empty')]
    extra = None
    if (failed or weak or err) and not findings:
        # a failed obligation: look harder for a failing input on the real code
        hints = bmc_hints(failed, scratch)
        hard = [[r['unit'], r['enums']] for r in failed] or cunits
        gs = [g for g in (hard[i::4] for i in range(4)) if g]
        while len(gs) < 4: gs.append(hard)
        h2 = [start_conc(g, 60 if not thorough else 200, 1000 + a.seed + 17 * i, files, scratch, 'h%d' % i, hints if i == 0 else (), minruns=20) for i, g in enumerate(gs)]
        extra = [end_conc(h, 360) for h in h2]
        conc += extra
        findings = [f for c in extra for f in c['findings']]
    known = known_findings(pid)
    def is_known(f):
        return next((k for k in known if k['contract'] == f['contract'] and k['obligation'] == f['obligation'] and k.get('at', f['at']) == f['at'] and all(f['params'].get(p) == v for p, v in k.get('params', {}).items())), None)
    viol = []
    rdir = os.path.join(V, 'replays')
    kn_hit = {}
    for f in findings:
        k = is_known(f)
        if k: kn_hit[k['id']] = k; continue
        viol.append(('concrete', f))
    if not viol and not findings:
        for r in failed:
            viol.append(('proof', r))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    lines = []
    for i, (kind, f) in enumerate(viol[:3]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%d.json' % (pid, i))
        ob = {r['unit']: {'failed': r.get('failed'), 'witness': r.get('witness')} for r in failed}
        if kind == 'concrete':
            json.dump({'property': pid, 'obligation': f['obligation'], 'finding': f, 'replay_cmd': '%s -B %s replay %s' % (PY, os.path.join(V, 'pyver', 'conc.py'), path), 'verifier': ob}, open(path, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
            print('%s: %s: obligation "%s" fails at %s: %s' % (pid, f['contract'], f['obligation'], f['at'], f['detail']))
        else:
            json.dump({'property': pid, 'obligation': f.get('failed'), 'unit': f['unit'], 'params': f['enums'], 'verifier': f.get('witness'), 'note': 'obligation refuted by the verifier; no failing input found on the real code'}, open(path, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
            print('%s: %s: obligation(s) not provable: %s' % (pid, f['unit'], f.get('failed')))
    ran = sum(c.get('runs', 0) for c in conc)
    for c in conc:
        if c.get('failed_to_run'): print('note: concrete run did not complete: %s' % c['failed_to_run'][-300:])
    cov = coverage(us, res, conc, ran, a, pid, tier)
    if err: cov['contract_load_error'] = err
    level = 'proof' if res and not weak and not err else 'other'
    ev = {'property': pid, 'tier': tier, 'seed': a.seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'assumptions': assumptions(res, us, weak), 'violations': len(lines)}
    ev['coverage']['violation_lines'] = list(lines)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    for r in sorted(res, key=lambda r: r['unit']):
        if a.v or r['status'] != 'proved':
            print('%-55s %s %-11s %s/%s obligations %ss %s' % (r['unit'], r.get('enums') or '', r['status'], r.get('discharged'), r.get('total'), r.get('wall_s'), r.get('why', '') or r.get('failed') or r.get('undecided') or ''))
    nd = sum(r.get('discharged', 0) for r in res)
    print('%s %s: %d/%d units proved, %d obligations discharged, %d concrete histories, %.1fs' % (pid, tier, sum(r['status'] == 'proved' for r in res), len(res), nd, ran, time.time() - t0))
    for l in lines: print(l)
    if lines: return 1
    return 0

def discover_concrete(mod):
    code = ("import sys,json;sys.path.insert(0,%r);sys.path.insert(0,%r);import importlib,inspect,itertools\nm=importlib.import_module(%r)\nout=[]\n"
            "for k,c in vars(m).items():\n"
            "  if inspect.isclass(c) and c.__module__==%r and not k.endswith('Base') and hasattr(c,'init') and hasattr(c,'prop'): out.append(['%s:'+k,{}])\n"
            "print('UNITS '+json.dumps(out))") % (os.path.join(V, 'pyver'), V, mod, mod, mod)
    r = subprocess.run([PY, '-B', '-c', code], capture_output=True, text=True, env=env(), timeout=120)
    for l in r.stdout.split('\n'):
        if l.startswith('UNITS '): return json.loads(l[6:])
    return []

def bmc_hints(failed, scratch):
    return []

def coverage(us, res, conc, ran, a, pid, tier):
    oblig = sum(r.get('total', 0) for r in res)
    dis = sum(r.get('discharged', 0) for r in res)
    fns = sorted({f for r in res for f in r.get('functions', [])})
    bq = {q for q, cs, c in us if c.get('bounded')}
    ev = {}
    for c in conc:
        for k, n in (c.get('obligations_evaluated') or {}).items(): ev[k] = ev.get(k, 0) + n
    tb = ['pyver symbolic interpreter (Python and numpy semantics as implemented in /verif/pyver)', 'z3 4.x as validity oracle', 'CPython ast module (source text of /repo parsed on every run)']
    return {'obligations': oblig, 'discharged': dis, 'checker_cmd': 'python3-vt run_check.py %s --tier %s' % (pid, tier), 'trusted_base': tb,
            'functions_under_contract': fns,
            'back_end': 'z3 (quantifier-free instances of the sequence/multiset theories)' + (' + cvc5 re-check' if tier == 'thorough' else ''),
            'solver_seconds': round(sum(r.get('solver', {}).get('seconds', 0) for r in res), 1),
            'solver_queries': sum(r.get('solver', {}).get('queries', 0) for r in res),
            'units': [{k: r.get(k) for k in ('unit', 'enums', 'status', 'mode', 'contracts_used', 'discharged', 'total', 'vacuous', 'failed', 'undecided', 'why', 'invariants', 'solver', 'cvc5', 'wall_s')} for r in sorted(res, key=lambda r: (r['unit'], str(r.get('enums'))))],
            'obligation_names': sorted({'%s: %s' % (r['unit'].split(':')[1], n) for r in res for n in (r.get('obligations') or {})}),
            'discharged_for_every_configuration': sum(r.get('discharged', 0) for r in res if r['unit'] not in bq),
            'discharged_at_bounded_configurations': sum(r.get('discharged', 0) for r in res if r['unit'] in bq),
            'bounded_units': [{'unit': q, 'bound': c['bounded']} for q, cs, c in us if c.get('bounded')],
            'concrete_only_units': [q for q, cs, c in us if c['mode'] != 'proof'],
            'concrete_cross_check': {'histories': ran, 'obligations_evaluated': ev, 'unconfirmed': [x for c in conc for x in c.get('errors', [])][:3]}}

def assumptions(res, us, weak):
    out = ['machine floats treated as mathematical reals in the proofs (no rounding, NaN or overflow)', 'integers unbounded (exact for Python ints; numpy integer overflow not modelled)']
    ext = {}
    for r in res: ext.update(r.get('assumed') or {})
    for k in sorted(ext): out.append('%s: %s' % (k, ext[k]))
    for r in weak: out.append('NOT PROVED (bounded concrete check stands in): %s %s: %s' % (r['unit'], r.get('enums'), r.get('why') or r['status']))
    for q, cs, c in us:
        if c.get('bounded'): out.append('bounded: %s: %s' % (q, c['bounded']))
        if c['mode'] != 'proof': out.append('checked on the real code only (bounded, not proved): %s' % q)
    return out

if __name__ == '__main__':
    sys.exit(main())
