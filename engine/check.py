"""check.py <property> : decide one property on the current tree."""
import json, multiprocessing as mp, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
ROOT = build.ROOT

def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@').strip('"') for n in names), stdout=subprocess.PIPE, text=True)
        return p.stdout.splitlines()
    except OSError:
        return list(names)

def known_findings(prop):
    out = {}
    p = ROOT + '/KNOWN_FINDINGS.json'
    if os.path.exists(p):
        for k in json.load(open(p))['findings']:
            if k['property'] == prop and k['status'] == 'open':
                out[k['id']] = k
    return out

def job(args):
    name, params, ir, binary, known, out, workers, budget, quick, q = args
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    import run
    try:
        h = run.Harness(name, params, ir, binary, set(known), out, quick)
        res = h.explore(workers, budget)
        res['native_seeds'] = list(h.native)
    except Exception:
        import traceback
        res = {'error': traceback.format_exc()}
    q.put((name, res))

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[2:] 
    t0 = time.time()
    import spec
    sp = spec.SPEC[prop]
    try:
        ir, binary = build.build()
    except build.BuildError as e:
        print(str(e)[-3000:])
        print('ERROR build failed')
        return 2
    tb = time.time() - t0
    known = known_findings(prop)
    hs = []
    for name, q_params, t_params in sp['harnesses']:
        if only and name not in only:
            continue
        hs.append((name, q_params if tier == 'quick' else t_params))
    out = build.BUILD + '/replay'
    os.makedirs(out, exist_ok=True)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    ncpu = min(8, os.cpu_count() or 8)
    budget = sp.get('budget', 600) if tier == 'quick' else sp.get('thorough_budget', 3600)
    results = {}
    todo = list(hs)
    running = {}
    conc = min(len(hs), sp.get('concurrent', 4))
    workers = max(1, ncpu // conc)
    stop = False
    while (todo or running) and not stop:
        while todo and len(running) < conc:
            n, p = todo.pop(0)
            pr = ctx.Process(target=job, args=((n, dict(p), ir, binary, list(known), out, workers, budget, tier == 'quick', q),))
            pr.start()
            running[n] = pr
        try:
            n, r = q.get(timeout=2)
        except Exception:
            for n, pr in list(running.items()):
                if not pr.is_alive() and n not in results:
                    try:
                        n2, r2 = q.get(timeout=2)
                        results[n2] = r2
                        running.pop(n2, None)
                        continue
                    except Exception:
                        results[n] = {'error': 'harness process died with %s' % pr.exitcode}
                        running.pop(n, None)
            continue
        results[n] = r
        pr = running.pop(n, None)
        if pr:
            pr.join(5)
        if r.get('violation'):
            stop = True
    for pr in running.values():
        pr.terminate()
    return report(prop, tier, seed, sp, results, known, t0, tb, out, [n for n, _ in hs], dict(hs))

def report(prop, tier, seed, sp, results, known, t0, tb, out, names, params):
    errs, viol, stats, funcs = [], None, {}, {}
    tot = {'paths': 0, 'steps': 0, 'forks': 0, 'ifconv': 0, 'confirmed': 0, 'distinct': 0, 'syntactic': 0, 'implied': 0, 'implied_confirmed': 0}
    matched = 0
    samples, per, kn, inputs = [], {}, {}, {}
    for n, r in results.items():
        if 'error' in r:
            errs.append('%s: %s' % (n, r['error']))
            continue
        for k in tot:
            tot[k] += r[k]
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r['functions'].items():
            funcs[k] = funcs.get(k, 0) + v
        for k, v in r['known'].items():
            kn[k] = v
        if r['violation']:
            viol = viol or r['violation']
            continue
        for x in sorted(set(r['undecided'])):
            errs.append('%s: undecided: %s' % (n, x))
        for x in sorted(set(r['unsupported']))[:5]:
            errs.append('%s: not encodable: %s' % (n, x))
        for x in r['disagree'][:5]:
            errs.append('%s: the solver disagrees with the normal form: %s' % (n, x))
        for x in r['mismatch'][:5]:
            errs.append('%s: translation differs from the native run: %s' % (n, x))
        for s in r['native_seeds']:
            m = r['matched'].get(s, 0)
            if m == 1:
                matched += 1
            elif m or not r['cut'].get(s, 0):
                errs.append('%s: native run with seed %d matches %d paths' % (n, s, m))
        for c in sp.get('covers', {}).get(n, ()):
            if not r['covers'].get(c.replace(' ', '_')):
                errs.append('%s: %s is never reached' % (n, c))
        if not r['goal_names']:
            errs.append('%s: no goals' % n)
        samples += [dict(x, harness=n) for x in r['samples'][:2]]
        inputs.update(r['inputs'])
        per[n] = {'paths': r['paths'], 'ends': r['ends'], 'goals': r['goal_names'], 'covers': r['covers'], 'wall_s': round(r['wall'], 1),
                  'bounds': params[n]}
    fn = [x for x in funcs if 'sett_rs' in x]
    dm = demangle(sorted(fn))
    cov = {
        'states': tot['paths'], 'transitions': tot['steps'], 'traces_validated_against_impl': matched,
        'samples': samples[:6],
        'functions_encoded': dm, 'functions_encoded_total': len(funcs),
        'symbolic_inputs': {k: list(v) for k, v in sorted(inputs.items())[:200]},
        'harnesses': per,
        'goals': stats.get('goals', 0),
        'goals_that_are_syntactically_true': tot['syntactic'],
        'distinct_goals_decided_by_rewriting': tot['distinct'], 'of_these_confirmed_by_solver': tot['confirmed'],
        'distinct_implied_branches': tot['implied'], 'of_these_confirmed_by_solver_too': tot['implied_confirmed'],
        'linear_eliminations': stats.get('linear', 0),
        'solver_queries': stats.get('queries', 0), 'solver_unsat': stats.get('unsat', 0), 'solver_sat': stats.get('sat', 0),
        'solver_unknown': stats.get('unknown', 0), 'solver_time_s': round(stats.get('time', 0.0), 2),
        'forks': tot['forks'], 'merged_branches': tot['ifconv'], 'build_s': round(tb, 1),
        'known_findings_seen': {k: v[1] for k, v in kn.items()},
        'inconclusive': errs[:20],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': sp.get('assumptions', []) + sp.get('outside', []), 'wall_s': round(time.time() - t0, 1),
          'violations': 1 if viol else 0}
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    with open(ROOT + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d paths, %d steps, %d goals, %d solver queries (%.1f s), %d native runs matched, %.0f s' % (
        prop, tot['paths'], tot['steps'], stats.get('goals', 0), stats.get('queries', 0), stats.get('time', 0.0), matched, time.time() - t0))
    for k, v in kn.items():
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, known[k]['what']))
    if viol:
        path = '%s/%s.model' % (out, prop)
        with open(path, 'w') as f:
            f.write('# property %s, goal %s, native %s, found by %s\n# replay: %s %s %s\n' % (
                prop, viol['goal'], ' '.join(viol['native']), viol['how'], build.BUILD + '/native/release/replay', viol['harness'], path))
            f.write(viol['model'])
        print('goal %s of %s fails: %s (%s)' % (viol['goal'], viol['harness'], ' '.join(viol['native']), viol['how']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errs:
        for e in errs[:20]:
            print('INCONCLUSIVE', e[:1500])
        return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
