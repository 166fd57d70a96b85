#!/opt/veriftools/pyvenv/bin/python3
"""Decide one property:  run.py PROPERTY [--tier quick|thorough]

Compiles the harnesses of the property from /repo's current working tree, explores them symbolically, asks the SMT
solver for a violation of every assertion on every path, replays counterexamples natively, writes
evidence/PROPERTY.json.  Exit 0: held on everything explored (possibly with KNOWN-FINDING lines); exit 1: a
VIOLATION line; exit 2: no answer (a harness does not compile, or nothing could be explored)."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ProcessPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
REPO = os.environ.get('VERIF_REPO', '/repo')
import registry
import symdriver

CXX = 'clang++-18'
FLAGS = ['-std=c++17', '-O0', '-g1', '-w', '-ferror-limit=20', '-fsanitize=address,undefined',
         '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-fbracket-depth=1024', '-ftemplate-depth=4096',
         '-fconstexpr-steps=100000000', '-fconstexpr-depth=8192']


def compile_one(src, out, extra):
    cmd = [CXX] + FLAGS + extra + ['-I' + os.path.join(HERE, 'mp'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'absent'),
                                   '-I' + os.path.join(HERE, 'harness'), src, '-o', out]
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, time.time() - t


def merge(a, b):
    for k in ('paths', 'feasible_paths', 'checks', 'trivially_true', 'queries', 'unsat', 'sat', 'unknown',
              'branch_queries', 'solver_s', 'killed', 'wall_s', 'branch_unknown', 'feas_unknown', 'replays_ok'):
        a[k] = a.get(k, 0) + b.get(k, 0)
    a['truncated'] = a.get('truncated') or b.get('truncated')
    for k in ('unknown_labels', 'violations', 'unconfirmed', 'notes', 'samples'):
        a[k] = a.get(k, []) + b.get(k, [])
    a['reached'] = sorted(set(a.get('reached', [])) | set(b.get('reached', [])))
    a['error'] = a.get('error') or b.get('error')


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--cases', default='.', help='only cases matching this regex (development)')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = registry.CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    deadline = t0 + (spec.get('budget', 780) if tier == 'quick' else spec.get('thorough_budget', 7200))
    rc = 2
    try:
        rc = run(a, prop, tier, seed, spec, t0, tmp, deadline)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(a, prop, tier, seed, spec, t0, tmp, deadline):
    cases, compile_s, failures = [], {}, []
    with ProcessPoolExecutor(a.jobs) as ex:
        futs = {}
        for h in spec.get('harnesses', []):
            name, defs = (h, []) if isinstance(h, str) else (h[0], list(h[1]))
            out = os.path.join(tmp, name + ''.join(re.sub(r'\W', '', d) for d in defs))
            extra = defs + (['-DTHOROUGH'] if tier == 'thorough' else [])
            futs[ex.submit(compile_one, os.path.join(HERE, 'harness', name + '.cpp'), out, extra)] = (name, defs, out)
        for f in as_completed(futs):
            name, defs, out = futs[f]
            rc, log, dt = f.result()
            compile_s[name + ' ' + ' '.join(defs)] = round(dt, 1)
            if rc != 0:
                failures.append((name, log))
                continue
            for line in subprocess.check_output([out, 'list'], text=True).splitlines():
                cn, opts = (line.split('\t') + [''])[:2]
                if re.search(a.cases, cn):
                    cases.append((out, cn, opts, name + ''.join(' ' + d for d in defs)))
    results = {}
    jobs = []
    n = 0
    for out, cn, opts, h in cases:
        d = os.path.join(tmp, 'c%d' % n)
        n += 1
        os.makedirs(d)
        jobs.append((out, cn, opts, d, h))
    stop = False
    with ProcessPoolExecutor(a.jobs) as ex:
        futs = {}
        order = sorted(jobs, key=lambda j: -float(dict(kv.split('=', 1) for kv in j[2].split() if '=' in kv).get('weight', 1)))
        for out, cn, opts, d, h in order:
            futs[ex.submit(symdriver.run_case, (out, cn, opts, deadline - time.time() - 20, d, None))] = (out, cn, opts, d, h)
        pending = set(futs)
        while pending:
            done = next(as_completed(pending))
            pending.discard(done)
            out, cn, opts, d, h = futs[done]
            try:
                r = done.result()
            except Exception as e:
                r = dict(name=cn, error=repr(e), violations=[], unconfirmed=[])
            key = h + ':' + cn
            if key not in results:
                results[key] = dict(name=key, opts=opts)
            merge(results[key], r)
            if r['violations']:
                stop = True
                break
            for k, chunk in enumerate(r.get('work', [])):
                dd = os.path.join(d, 's%d' % k)
                os.makedirs(dd, exist_ok=True)
                f = ex.submit(symdriver.run_case, (out, cn, opts, max(5, deadline - time.time() - 20), dd, chunk))
                futs[f] = (out, cn, opts, dd, h)
                pending.add(f)
        for f in pending:
            f.cancel()
        if stop:
            # the verdict is known: do not wait for the other cases
            for p in list((ex._processes or {}).values()):
                p.kill()
    if spec.get('extra'):
        import importlib
        mod = importlib.import_module(spec['extra'])
        for r in mod.run(prop, tier, seed, REPO, tmp, deadline, a):
            results[r['name']] = r
    return report(a, prop, tier, seed, spec, t0, results, failures, compile_s, tmp)


def report(a, prop, tier, seed, spec, t0, results, failures, compile_s, tmp):
    tot = {}
    for r in results.values():
        merge(tot, r)
    known = [k for k in load_known() if k['property'] == prop and k.get('status') != 'fixed']
    viols, hits = [], {}
    for key, r in sorted(results.items()):
        for v in r.get('violations', []):
            k = next((k for k in known if re.fullmatch(k['case'], key) and re.search(k['label'], v['label'])), None)
            if k:
                hits.setdefault(k['id'], (k, v))
            else:
                viols.append((key, v))
    vac = []
    for key, r in results.items():
        need = dict(kv.split('=', 1) for kv in r.get('opts', '').split() if '=' in kv).get('reach')
        if not r.get('feasible_paths') or not r.get('checks'):
            vac.append(key)
        elif need and not r.get('truncated') and not r.get('violations'):
            miss = [x for x in need.split(',') if x not in r.get('reached', [])]
            if miss:
                vac.append(key + ' (never reaches ' + ','.join(miss) + ')')
    errs = {k: r['error'] for k, r in results.items() if r.get('error')}
    samples = []
    for key, r in sorted(results.items()):
        for s in r.get('samples', [])[:1]:
            samples.append(dict(case=key, **s))
    samples = samples[:6] or [dict(case=k, paths=r.get('paths')) for k, r in list(results.items())[:3]]
    cov = dict(
        states=tot.get('feasible_paths', 0), transitions=tot.get('branch_queries', 0) + tot.get('queries', 0),
        traces_validated_against_impl=tot.get('replays_ok', 0), samples=samples,
        states_meaning='feasible symbolic paths of the real code explored to the end (each stands for all inputs that follow it)',
        transitions_meaning='branch feasibility queries plus assertion queries put to the solver',
        cases=len(results), paths=tot.get('paths', 0), assertions=tot.get('checks', 0),
        assertions_settled_by_evaluation=tot.get('trivially_true', 0),
        queries_discharged=tot.get('unsat', 0), queries_unknown=tot.get('unknown', 0),
        branch_unknown=tot.get('branch_unknown', 0), solver_s=round(tot.get('solver_s', 0), 2),
        unknown=[dict(case=k, labels=r['unknown_labels'][:5]) for k, r in results.items() if r.get('unknown_labels')][:40],
        truncated=[k for k, r in results.items() if r.get('truncated')],
        vacuous=vac, errors=errs, compile_s=compile_s,
        unconfirmed=[dict(case=k, n=len(r['unconfirmed']), first=r['unconfirmed'][0]) for k, r in results.items() if r.get('unconfirmed')][:10],
        functions_encoded=spec.get('functions', []), bounds=spec.get('bounds', ''), outside=spec.get('outside', ''),
        per_case={k: dict(paths=r.get('paths'), checks=r.get('checks'), unsat=r.get('unsat'), unknown=r.get('unknown'),
                          reached=r.get('reached'), wall_s=round(r.get('wall_s', 0), 1)) for k, r in sorted(results.items())})
    if spec.get('evidence_extra'):
        cov.update(spec['evidence_extra'])
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if a.cases == '.':
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s tier=%s cases=%d paths=%d feasible=%d assertions=%d queries=%d unsat=%d unknown=%d solver=%.1fs replays=%d wall=%.1fs' % (
        prop, tier, len(results), tot.get('paths', 0), tot.get('feasible_paths', 0), tot.get('checks', 0),
        tot.get('queries', 0), tot.get('unsat', 0), tot.get('unknown', 0), tot.get('solver_s', 0),
        tot.get('replays_ok', 0), time.time() - t0))
    for k, (kf, v) in sorted(hits.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    for name, log in failures:
        print('HARNESS DOES NOT COMPILE: %s\n%s' % (name, log[:3000]))
    for key in vac[:20]:
        print('NOTE vacuous case ' + key)
    for k, e in list(errs.items())[:10]:
        print('NOTE error in case %s: %s' % (k, e[-600:]))
    for key, r in results.items():
        if r.get('unknown'):
            print('NOTE %s: %d queries undecided: %s' % (key, r['unknown'], r['unknown_labels'][:3]))
        if r.get('truncated') and not viols:
            print('NOTE %s: exploration truncated' % key)
        if r.get('unconfirmed'):
            print('NOTE %s: %d counterexamples not confirmed natively, first: %s' % (
                key, len(r['unconfirmed']), json.dumps(r['unconfirmed'][0], default=str)[:500]))
    if viols:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for key, v in viols[:5]:
            f = os.path.join(d, '%s_%s.json' % (prop, re.sub(r'\W', '_', key)))
            json.dump(dict(property=prop, harness_case=key, **v), open(f, 'w'), indent=1, default=str)
            print('  %s: %s with %s' % (key, v['label'], json.dumps(v.get('values'))[:400]))
            print('VIOLATION property=%s replay=%s' % (prop, f))
        return 1
    if failures or not tot.get('checks') or (errs and len(errs) == len(results)):
        return 2
    return 0


if __name__ == '__main__':
    main()
