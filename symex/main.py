"""Command line: decide one property.   python -m symex.main P01 --tier quick"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_REG = {}


def _task(name, tier, prefixes, max_paths, tl, seed):
    from symex import runner
    h = _REG[name]
    try:
        r = runner.explore(h, tier, prefixes, max_paths, tl, seed)
    except Exception as e:          # engine failure: inconclusive
        import traceback
        r = dict(paths=0, ok=0, infeasible=0, inconclusive=[dict(
            harness=name, status='engine', detail=traceback.format_exc()
            [-600:])], violations=[], left=[], replays=0, checks=0,
            fns=set(), samples=[], assumed=0, labels=set(), notes=set(),
            stats={}, time=0)
    return name, r


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p)).get('findings', [])
    return []


def match_known(v, pid, known):
    for k in known:
        if k['property'] != pid or k['harness'] != v['harness']:
            continue
        if 'label' in k and k['label'] != v['label']:
            continue
        if any(v['choices'].get(c) not in (vals if isinstance(vals, list)
                                           else [vals])
               for c, vals in k.get('choices', {}).items()):
            continue
        return k
    return None


def run(pid, tier, seed, jobs, only=None, verbose=False, time_cap=None):
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid)
    hs = [h for h in mod.HARNESSES
          if (tier == 'thorough' or h.tier == 'quick')
          and (not only or only in h.name)]
    if tier == 'thorough':
        names = {h.name for h in hs if h.tier == 'thorough'}
        hs = [h for h in hs if h.tier == 'thorough' or
              (h.name + '+') not in names]
    for h in hs:
        _REG[h.name] = h
    cap = time_cap or (getattr(mod, 'QUICK_CAP', 420) if tier == 'quick'
                       else getattr(mod, 'THOROUGH_CAP', 5400))
    agg = {h.name: dict(paths=0, ok=0, infeasible=0, replays=0, checks=0,
                        queries=0, discharged=0, solver_time=0.0, unknown=0,
                        left=0, inconclusive=0, cpu_s=0.0) for h in hs}
    fns, samples, inc, viols, notes, labels = (set(), [], [], [], set(),
                                               set())
    assumed = 0
    from symex import runner
    runner.world()
    ctx = mp.get_context('fork')
    pending = {}
    leftover = 0
    ex = ProcessPoolExecutor(max_workers=jobs, mp_context=ctx)
    queue = []
    for h in hs:
        queue.append((h.name, [[]]))
    n = 0

    def submit(name, prefixes):
        nonlocal n
        n += 1
        small = agg[name]['paths'] < 30
        f = ex.submit(_task, name, tier, prefixes, 6 if small else 60,
                      4 if small else 12, seed * 1000 + n)
        pending[f] = name
    for name, p in queue:
        submit(name, p)
    stop = False
    while pending:
        done, _ = wait(list(pending), return_when=FIRST_COMPLETED,
                       timeout=5)
        over = time.time() - t0 > cap
        if over:
            for f in list(pending):
                if f.cancel():
                    a = agg[pending.pop(f)]
                    a['left'] += 1
                    leftover += 1
            done = [f for f in done if f in pending]
            if not pending:
                break
        if over and not done:
            if time.time() - t0 > cap + 60:
                for f, nm in pending.items():
                    inc.append(dict(harness=nm, status='timeout',
                                    detail='worker did not finish'))
                break
            continue
        for f in done:
            name0 = pending.pop(f)
            try:
                name, r = f.result()
            except Exception as e:
                inc.append(dict(harness=name0, status='engine',
                                detail='worker died: %r' % (e,)))
                continue
            a = agg[name]
            for k in ('paths', 'ok', 'infeasible', 'replays', 'checks'):
                a[k] += r[k]
            for k in ('queries', 'solver_time', 'unknown', 'discharged'):
                a[k] += r['stats'].get(k, 0)
            a['cpu_s'] += r['time']
            a['inconclusive'] += len(r['inconclusive'])
            fns |= r['fns']
            labels |= {"%s/%s" % (name, l) for l in r['labels']}
            notes |= r['notes']
            assumed += r['assumed']
            inc.extend(r['inconclusive'])
            samples.extend(r['samples'])
            viols.extend(r['violations'])
            if len(viols) > 40:
                stop = True
            left = r['left']
            mx = _REG[name].max_paths
            if stop or over or (mx and a['paths'] >= mx):
                a['left'] += len(left)
                leftover += len(left)
                continue
            # distribute the rest
            k = max(1, min(len(left), jobs))
            for i in range(k):
                part = left[i::k]
                if part:
                    submit(name, part)
        if stop:
            break
    procs = list(getattr(ex, '_processes', {}).values())
    ex.shutdown(wait=False, cancel_futures=True)
    for p in procs:
        p.terminate()
    known = load_known()
    newv, seen = [], {}
    for v in viols:
        k = match_known(v, pid, known)
        if k is not None:
            seen[k['id']] = k
        else:
            newv.append(v)
    wall = time.time() - t0
    vac = [h for h, a in agg.items() if a['checks'] == 0 and a['left'] == 0
           and not a['inconclusive']]
    for h in vac:
        inc.append(dict(harness=h, status='vacuous',
                        detail='no check was reached'))
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    paths = []
    uniq = {}
    for v in newv:
        uniq.setdefault((v['harness'], v['label']), v)
    for i, v in enumerate(uniq.values()):
        p = os.path.join(rdir, "%s-%d.json" % (pid, i))
        with open(p, 'w') as f:
            json.dump(dict(v, property=pid, tier=tier), f, indent=1)
        paths.append(p)
    tot = {k: sum(a[k] for a in agg.values()) for k in
           ('paths', 'ok', 'infeasible', 'replays', 'checks', 'queries',
            'discharged', 'solver_time', 'unknown', 'left')}
    exhaustive = not inc and tot['left'] == 0 and not newv and tot[
        'unknown'] == 0
    ev = dict(
        property=pid, tier=tier, seed=seed, level='other',
        coverage=dict(
            explanation=(
                "Bounded symbolic execution of the hftools source read from "
                "/repo in this run: inputs are solver variables over exact "
                "reals/complexes/integers (IEEE rounding is not modelled), "
                "structure (shapes, dimension orders/classes, argument "
                "forms) is forked exhaustively within the bounds, every "
                "branch and assertion is decided by z3; each completed path "
                "is also replayed on the unmodified code at a solver model."),
            functions_encoded=sorted(fns),
            functions_encoded_count=len(fns),
            bounds={h.name: h.bounds for h in hs},
            harnesses=agg,
            paths_explored=tot['paths'],
            paths_held=tot['ok'],
            paths_infeasible=tot['infeasible'],
            assertions_evaluated=tot['checks'],
            solver_queries=tot['queries'],
            assertion_queries_discharged_unsat=tot['discharged'],
            solver_unknown=tot['unknown'],
            solver_time_s=round(tot['solver_time'], 3),
            concrete_replays_on_real_code=tot['replays'],
            nonzero_divisor_assumptions=assumed,
            paths_left_unexplored=tot['left'],
            inconclusive=inc[:40], inconclusive_count=len(inc),
            exhaustive=exhaustive,
            assertion_labels=sorted(labels)[:200],
            samples=samples[:6],
            known_findings=[k['id'] for k in seen.values()],
            notes=sorted(notes)[:20]),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
            "numbers are exact reals/complexes/integers; floating-point "
            "rounding, overflow and NaN/inf inputs are outside the claim",
            "divisors met on a path are assumed non-zero",
            "numpy, h5py, scipy and the Python runtime are trusted; numpy "
            "operations are modelled by exact arithmetic on object arrays "
            "and validated by replaying every path on real numpy"],
        wall_s=round(wall, 2), violations=len(newv))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    for k in seen.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k['what']))
    print("%s %s: paths=%d held=%d infeasible=%d checks=%d queries=%d "
          "(solver %.1fs, unknown %d) replays=%d left=%d inconclusive=%d "
          "wall=%.1fs" % (pid, tier, tot['paths'], tot['ok'],
                          tot['infeasible'], tot['checks'], tot['queries'],
                          tot['solver_time'], tot['unknown'],
                          tot['replays'], tot['left'], len(inc), wall))
    if verbose:
        for hname, a in agg.items():
            print("   %-40s paths=%d ok=%d inf=%d chk=%d q=%d cpu=%.1f "
                  "left=%d inc=%d" % (hname, a['paths'], a['ok'],
                                      a['infeasible'], a['checks'],
                                      a['queries'], a['cpu_s'], a['left'],
                                      a['inconclusive']))
    di = {}
    for x in inc:
        di.setdefault((x['harness'], x.get('status'), x.get('label'),
                       x.get('detail')), []).append(x)
    for k, xs in list(di.items())[:25 if verbose else 5]:
        x = dict(xs[0], times=len(xs))
        print("INCONCLUSIVE", json.dumps(x, default=str)[:900])
    for v, p in zip(uniq.values(), paths):
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("   harness=%s check=%s: %s" % (v['harness'], v['label'],
                                              v['detail'][:600]))
        print("   values=%s choices=%s" % (
            json.dumps(v['values'])[:600], json.dumps(v['choices'])[:300]))
    sys.stdout.flush()
    return 1 if newv else 0


def do_replay(path):
    from symex import runner
    v = json.load(open(path))
    mod = importlib.import_module('checks.' + v['property'])
    for h in mod.HARNESSES:
        if h.name == v['harness'] and repr(h.params) == v['params']:
            vals = {k: Fraction(x) for k, x in v['values'].items()}
            st, lab, det, _ = runner.replay(h, vals, v['choices'],
                                            v.get('tier', 'quick'))
            print(st, lab, det)
            if st in ('fail', 'raise'):
                print("VIOLATION property=%s replay=%s" % (v['property'],
                                                           path))
                return 1
            return 0
    print("harness not found")
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--cap', type=float)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.replay:
        rc = do_replay(a.replay)
    else:
        rc = run(a.property, a.tier, seed, a.jobs, a.only, a.v, a.cap)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
