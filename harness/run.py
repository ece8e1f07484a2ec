#!/usr/bin/env python3
"""run.py <property> : one check.

  1. brings the build of /repo's working tree up to date
  2. generates cases (random programs and behaviours of the specification)
  3. executes them in worker processes on the real k2, recording one trace per case
  4. lets TLC decide every trace against spec/T<id>.tla (which clause fails where)
  5. model checks the design models of the property (spec/MC*.tla)
  6. corrupts recorded traces and requires that TLC rejects them (binding self-test)
  7. reports, and rewrites evidence/<id>.json

exit 0: held; exit 1: VIOLATION line(s); exit 2: the machinery itself failed.
"""
import sys, os, json, time, random, subprocess, importlib, threading, shutil, hashlib, copy, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from common import VERIF, SPEC, HERE
import tlc

PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONPATH='/repo/k2/python:/opt/k2-build/lib', PYTHONDONTWRITEBYTECODE='1',
           OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0')
NW = 8


def die(msg):
    print('MACHINERY-ERROR: ' + msg)
    sys.exit(2)


def execute(drv, cases, wd, nw=NW, max_restarts=12):
    """Runs the cases in nw processes. Returns {case id: events}."""
    n = len(cases)
    nw = max(1, min(nw, (n + 3) // 4))
    chunks = [cases[i::nw] for i in range(nw)]
    res = {}
    lock = threading.Lock()
    notes = []

    def one(k):
        cf = os.path.join(wd, f'cases{k}.jsonl')
        of = os.path.join(wd, f'out{k}.ndjson')
        with open(cf, 'w') as f:
            for c in chunks[k]:
                f.write(json.dumps(c) + '\n')
        open(of, 'w').close()
        start, restarts = 0, 0
        while start < len(chunks[k]):
            p = subprocess.run([PY, os.path.join(HERE, 'worker.py'), drv, cf, of, str(start)],
                               env=ENV, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                               errors='replace')
            done = sum(1 for _ in open(of))
            if p.returncode == 0 and done == len(chunks[k]):
                break
            if p.returncode in (0, 1) or (done == start and restarts == 0 and 'Error' in p.stderr and p.returncode > 0):
                with lock:
                    notes.append((p.returncode, p.stderr[-1500:]))
                if p.returncode in (0, 1):
                    break
            # killed by a signal: the case in progress crashed (or hung: SIGALRM = 14)
            kind = 'Hang' if p.returncode == -14 else 'Crash'
            with open(of, 'a') as f:
                f.write(json.dumps(dict(id=chunks[k][done]['id'],
                                        ev=[dict(op='Died', err=kind, msg=f'exit status {p.returncode}')])) + '\n')
            start = done + 1
            restarts += 1
            if restarts > max_restarts:
                with lock:
                    notes.append(('restarts', p.returncode))
                break
        with lock:
            for line in open(of):
                d = json.loads(line)
                res[d['id']] = d['ev']

    ts = [threading.Thread(target=one, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res, notes


def validate(spec, traces, wd, label='trace', heap='6g', timeout=600, tolerate=3):
    """traces: list of (id, events). Returns (fails {id: [(l, clause)]}, stats)."""
    fails = {}
    stats = dict(states=0, transitions=0, tlc_runs=0, tlc_wall=0.0)
    todo = list(traces)
    tries = 0
    while True:
        tf = os.path.join(wd, f'{label}.ndjson')
        with open(tf, 'w') as f:
            for _, ev in todo:
                f.write(json.dumps(ev) + '\n')
        r = tlc.run_tlc(spec, spec + '.cfg', wd, env=dict(TRACE_FILE=tf), heap=heap, timeout=timeout)
        stats['tlc_runs'] += 1
        stats['tlc_wall'] += r.wall
        for m in r.msgs:
            if m.startswith('F '):
                tid, l, cl = json.loads(m[2:])
                e = fails.setdefault(todo[tid - 1][0], [])
                for c in cl:
                    if (l, c) not in e:
                        e.append((l, c))
        expect = sum(len(ev) + 1 for _, ev in todo)
        if r.complete and r.distinct == expect:
            stats['states'] += r.distinct
            stats['transitions'] += r.generated - len(todo)
            return fails, stats
        # evaluation error in one trace: name it, set it aside, go on
        import re
        ms = re.findall(r'^/\\ tid = (\d+)', r.out, re.M)
        ls = re.findall(r'^/\\ l = (\d+)', r.out, re.M)
        if ms and tries < tolerate and not r.timeout:
            t = int(ms[-1])
            fails.setdefault(todo[t - 1][0], []).append((int(ls[-1]) if ls else 0, 'NotEvaluable'))
            stats.setdefault('eval_errors', []).append(r.out[-1500:])
            todo.pop(t - 1)
            tries += 1
            continue
        stats['error'] = f'rc={r.rc} timeout={r.timeout} distinct={r.distinct} expected={expect}\n' + r.out[-3000:]
        return fails, stats


def corrupt(rng, ev, keys=('out',), unit=1, skip=()):
    """One integer leaf of one recorded output changed. None if there is no output."""
    ev = copy.deepcopy(ev)
    outs = []

    def walk(x, path):
        if isinstance(x, dict):
            for k in x:
                if k not in skip:
                    walk(x[k], path + [k])
        elif isinstance(x, list):
            for i in range(len(x)):
                walk(x[i], path + [i])
        elif isinstance(x, int):
            outs.append(path)
    for i, e in enumerate(ev):
        for key in keys:
            if key in e:
                walk(e[key], [i, key])
    if not outs:
        return None, None
    p = rng.choice(outs)
    x = ev
    for k in p[:-1]:
        x = x[k]
    x[p[-1]] = x[p[-1]] + rng.choice([1, 1, -1, 2]) * unit
    return ev, p


def load_findings(pid):
    out = []
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    a = sys.argv[2:]
    while a:
        if a[0] == '--tier': tier = a[1]; a = a[2:]
        elif a[0] == '--seed': seed = int(a[1]); a = a[2:]
        elif a[0] == '--replay': replay = a[1]; a = a[2:]
        else: die('bad argument ' + a[0])
    drv = pid.lower()
    b = subprocess.run(['bash', os.path.join(HERE, 'build_k2.sh')], stderr=subprocess.PIPE, text=True)
    if b.returncode != 0:
        die('build failed: ' + b.stderr[-1500:])
    sys.path.insert(0, HERE)
    mod = importlib.import_module('drivers.' + drv)
    build_s = time.time() - t0
    wd = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    rc = 2
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare(wd)
        rc = body(pid, mod, drv, tier, seed, replay, wd, t0, build_s)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)


def body(pid, mod, drv, tier, seed, replay, wd, t0, build_s):
    rng = random.Random(f'{pid}-{seed}-{tier}')
    mcs, mc_threads = [], []
    if not replay:
        def mc(m):
            wd2 = tempfile.mkdtemp(dir=wd)
            r = tlc.run_tlc(m['module'], m.get('cfg') or (m['module'] + '.cfg'), wd2,
                            workers=m.get('workers', 4), extra=['-coverage', '60'] if m.get('actions') else [],
                            timeout=m.get('timeout', 780), heap=m.get('heap', '4g'),
                            cfgtext=m.get('cfgtext'))
            mcs.append((m, r))
        for m in getattr(mod, 'MODELS', lambda tier: [])(tier):
            t = threading.Thread(target=mc, args=(m,))
            t.start()
            mc_threads.append(t)
    if replay:
        cases = [json.load(open(replay))['case']]
    else:
        cases = list(mod.gen(rng, tier, dict(wd=wd, seed=seed)))
    for i, c in enumerate(cases):
        c['id'] = i
    gen_s = time.time() - t0
    res, notes = execute(drv, cases, wd)
    exec_s = time.time() - t0
    missing = [c['id'] for c in cases if c['id'] not in res]
    for n in notes:
        print('note:', n)
    if len(missing) > len(cases) // 2 and not any(n[0] == 'restarts' for n in notes):
        die(f'{len(missing)} of {len(cases)} cases not executed')
    traces = [(c['id'], res[c['id']]) for c in cases if c['id'] in res]
    fails, st = validate(mod.TRACE_SPEC, traces, wd)
    val_s = time.time() - t0
    # binding self-test
    corr = dict(made=0, rejected=0)
    cthread = None
    if not replay:
        keys = getattr(mod, 'OUTS', ('out',))
        good = [t for t in traces if t[0] not in fails and any(k in e for e in t[1] for k in keys)]
        crng = random.Random(f'corrupt-{pid}-{seed}')
        cs = []
        for _ in range(200):
            if len(cs) >= 40 or not good:
                break
            t = crng.choice(good)
            e, p = corrupt(crng, t[1], keys, getattr(mod, 'UNIT', 1), getattr(mod, 'SKIP', ()))
            if e is not None and len(json.dumps(e)) < 20000:
                cs.append((len(cs), e, p))
        print(len(good), len(cs)) if os.environ.get("VERIF_DEBUG") else None
        if cs:
            cf, cst = validate(mod.TRACE_SPEC, [(i, e) for i, e, _ in cs], wd, label='corrupt', tolerate=6)
            corr = dict(made=len(cs), rejected=len(cf),
                        accepted_paths=[str(p) for i, _, p in cs if i not in cf][:10])
            if cst.get('error') and not cf:
                die('corrupted traces: ' + cst['error'])
            if os.environ.get('VERIF_DEBUG'):
                for e in cst.get('eval_errors', []):
                    print('corrupt eval error', e)
                if cst.get('error'):
                    print(cst['error'])
    for t in mc_threads:
        t.join()

    findings = load_findings(pid)
    kf_hit = {}
    viol = []

    def is_known(case, ev, l, clause):
        for f in findings:
            if f['clause'] == clause and mod.finding_match(f, case, ev, l):
                kf_hit.setdefault(f['id'], f)
                return True
        return False
    by = {c['id']: c for c in cases}
    tr = dict(traces)
    for cid, fl in sorted(fails.items()):
        new = [(l, c) for l, c in fl if not is_known(by[cid], tr[cid], l, c)]
        if new:
            viol.append((cid, new))
    model_viol = []
    msum = []
    for m, r in mcs:
        d = dict(module=m['module'], cfg=m.get('cfg') or m['module'] + '.cfg', distinct_states=r.distinct, generated=r.generated, depth=r.depth,
                 wall_s=round(r.wall, 1), complete=r.complete,
                 actions={k: v[1] for k, v in r.actions.items()})
        msum.append(d)
        if not r.complete:
            if r.inv or 'Assumption' in r.out and 'is false' in r.out:
                model_viol.append((m, r))
            else:
                die(f'model {m["module"]}: rc={r.rc} timeout={r.timeout}\n' + r.out[-3000:])
        if r.distinct < m.get('min_states', 2):
            die(f'model {m["module"]}: only {r.distinct} states (vacuous)')
        for a in m.get('actions', []):
            if r.actions.get(a, [0, 0])[1] == 0:
                die(f'model {m["module"]}: action {a} never taken (vacuous)')
    rdir = os.path.join(VERIF, 'evidence', 'replay', pid)
    if not replay:
        shutil.rmtree(rdir, ignore_errors=True)
    lines = []
    if model_viol:
        # A design model that fails does not depend on /repo: it is an error of the machinery.
        m, r = model_viol[0]
        die(f'model {m["module"]} violates {r.inv}\n' + r.out[-3000:])
    if st.get('error') and not viol:
        die('trace validation: ' + st['error'])
    for cid, new in viol[:20]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{cid}.json') if not replay else replay
        if not replay:
            json.dump(dict(property=pid, case=by[cid], events=tr[cid],
                           failing=[dict(event=l, clause=c, op=tr[cid][l - 1].get('op') if 0 < l <= len(tr[cid]) else None)
                                    for l, c in new]), open(path, 'w'))
        what = '; '.join(f'event {l} ({tr[cid][l-1].get("op") if 0 < l <= len(tr[cid]) else "?"}): {c}' for l, c in new[:4])
        lines.append(f'VIOLATION property={pid} replay={path} {what}')
    for f in findings:
        print(f'KNOWN-FINDING: property={pid} {f["what"]}')
    for x in lines:
        print(x)
    for e in st.get('eval_errors', [])[:2]:
        print('TLC:', e[-600:])
    opcnt = {}
    for _, ev in traces:
        for e in ev:
            opcnt[e.get('op', '?')] = opcnt.get(e.get('op', '?'), 0) + 1
    nontriv = getattr(mod, 'nontrivial', lambda c, ev: len(ev) > 0)
    dn = len({hashlib.sha1(json.dumps({k: v for k, v in by[i].items() if k != 'id'}, sort_keys=True).encode()).hexdigest()
              for i, ev in traces if nontriv(by[i], ev)})
    if not replay:
        cov = dict(
            states=st['states'] + sum(r.distinct for _, r in mcs),
            transitions=st['transitions'] + sum(r.generated for _, r in mcs),
            traces_validated_against_impl=len(traces),
            trace_states=st['states'], trace_events=sum(len(e) for _, e in traces),
            evaluations=len(traces), distinct_nontrivial=dn,
            rule=getattr(mod, 'RULE', ''),
            events_by_op=opcnt, models=msum,
            corrupted_traces=corr,
            samples=[dict(case=by[i], events=ev[:3]) for i, ev in traces[:2]])
        evd = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'model_checking'),
                   coverage=cov, assumptions=getattr(mod, 'ASSUMPTIONS', []),
                   wall_s=round(time.time() - t0, 2), violations=len(viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        s = json.dumps(evd, indent=1)
        if len(s) > 400000:
            cov['samples'] = [str(x)[:3000] for x in cov['samples']]
            s = json.dumps(evd, indent=1)
        open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w').write(s + '\n')
    print(f'{pid} tier={tier} seed={seed}: {len(traces)} traces, {sum(len(e) for _, e in traces)} events, '
          f'{len(viol)} violating; models {[(d["module"], d["distinct_states"]) for d in msum]}; '
          f'corruptions rejected {corr["rejected"]}/{corr["made"]}; '
          f'build {build_s:.1f} gen {gen_s-build_s:.1f} exec {exec_s-gen_s:.1f} tlc {val_s-exec_s:.1f} total {time.time()-t0:.1f}s')
    if not replay and corr['made'] >= 10 and corr['rejected'] == 0 and not viol:
        die('no corrupted trace was rejected: the trace specification does not bind')
    return 1 if viol else 0


if __name__ == '__main__':
    main()
