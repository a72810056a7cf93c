#!/usr/bin/env python3
"""Check driver:  check.py C01 [--tier quick|thorough]     check.py --replay FILE"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
VT = '/opt/veriftools/pyvenv/bin/python3'


def load_known():
    """known_findings.txt: 'known: property=<id> id=<kf> <what fails>' suppress; 'fixed: ...' lines suppress nothing."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: '):
                w = line.split()
                prop = w[1].split('=', 1)[1]
                kf = w[2].split('=', 1)[1]
                out.setdefault(prop, {})[kf] = ' '.join(w[3:])
    return out


class Replayer:
    def __init__(self):
        self.p = None

    def ask(self, mod, fn, params, inputs, known):
        if self.p is None:
            e = dict(os.environ, PYTHONHASHSEED='0')
            self.p = subprocess.Popen([sys.executable, '-m', 'symx.replay'], cwd=VERIF, stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, text=True, env=e)
        self.p.stdin.write(json.dumps(dict(mod=mod, fn=fn, params=params, inputs=inputs, known=list(known))) + '\n')
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()


def worker(q, out, mod, known, opts, deadline, stop):
    from symx import worker as W
    os.dup2(os.open('/dev/null', os.O_RDONLY), 0)
    rep = Replayer()
    while True:
        t = q.get()
        if t is None:
            break
        i, task = t
        left = deadline - time.time()
        if left < 3 or 0 < stop.value < time.time():
            out.put((i, dict(mod=mod, fn=task['fn'], params=task['params'], skipped=True)))
            continue
        try:
            # after a violation a task goes on for a short while only, unless the replay does not confirm it
            for grace in (20, 1e9):
                r = W.run_task(mod, task['fn'], task['params'], min(task.get('budget', 600), deadline - time.time()), known,
                               dict(opts, grace=grace), stop)
                # replay
                for x in r['violations']:
                    a = rep.ask(mod, task['fn'], task['params'], x['inputs'], known)
                    x['replay'] = dict(status=a['status'], failed=a['failed'], err=a['err'])
                    x['confirmed'] = bool(a['failed'])
                if not r.get('cut') or stop.value or any(x['confirmed'] for x in r['violations']):
                    break
            und = 0
            for lim in r['limits']:
                for inp in lim['inputs']:
                    a = rep.ask(mod, task['fn'], task['params'], inp, known)
                    und += 1
                    if a['failed']:
                        r['violations'].append(dict(inputs=inp, msgs=a['failed'], confirmed=True, err=a['err'],
                                                    replay=dict(status=a['status'], failed=a['failed'], err=a['err'])))
                        break
            r['limit_runs'] = und
            ok = bad = 0
            diverged = []
            for inp, obs in r['traces']:
                a = rep.ask(mod, task['fn'], task['params'], inp, known)
                if a['failed']:
                    r['violations'].append(dict(inputs=inp, msgs=a['failed'], confirmed=True, err=a['err'],
                                                replay=dict(status=a['status'], failed=a['failed'], err=a['err'])))
                elif a['status'] == 'ok' and a['obs'] == json.loads(json.dumps(obs)):
                    ok += 1
                else:
                    bad += 1
                    if len(diverged) < 3:
                        diverged.append(dict(inputs=inp, symbolic=obs, concrete=a['obs'], status=a['status'], err=a['err']))
            r['traces_ok'], r['traces_bad'], r['diverged'] = ok, bad, diverged
            kk = []
            for x in r['known']:
                a = rep.ask(mod, task['fn'], task['params'], x['inputs'], known)
                x['confirmed'] = x['kf'] in a['known']
                kk.append(x)
            r['known'] = kk
            del r['traces']
            if not stop.value and any(x['confirmed'] for x in r['violations']):
                stop.value = time.time() + 45
        except BaseException as e:
            import traceback
            r = dict(mod=mod, fn=task['fn'], params=task['params'], error=traceback.format_exc())
            if isinstance(e, KeyboardInterrupt):
                out.put((i, r))
                break
        out.put((i, r))
    rep.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--only', help='substring of the task label (development)')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if os.path.realpath(sys.executable) != os.path.realpath(VT) and os.path.exists(VT):
        try:
            import z3  # noqa
        except ImportError:
            os.execv(VT, [VT] + sys.argv)
    if a.replay:
        d = json.load(open(a.replay))
        rep = Replayer()
        ans = rep.ask(d['mod'], d['fn'], d['params'], d['inputs'], load_known().get(d['property'], {}))
        rep.close()
        print(json.dumps(ans, indent=1))
        sys.exit(1 if ans['failed'] else 0)
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.environ['PYTHONHASHSEED'] = '0'
    t0 = time.time()
    total = 780 if a.tier == 'quick' else 5400
    deadline = t0 + total
    known = load_known().get(prop, {})
    # the task list is computed in a child so that this process stays free of z3 and of the package
    mod = prop.lower()
    import ast as _ast
    from symx.envbase import Base  # noqa
    hm = importlib.import_module('harness.' + mod)
    tasks = hm.tasks(a.tier)
    if a.only:
        tasks = [t for t in tasks if a.only in t['fn'] + json.dumps(t['params'])]
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].get('cost', 1))
    ctx = mp.get_context('spawn')
    q, out = ctx.Queue(), ctx.Queue()
    opts = dict(seed=seed, trace_cap=getattr(hm, 'TRACE_CAP', 150 if a.tier == 'quick' else 600))
    stop = ctx.Value('d', 0.0)      # set when a violation is confirmed: the rest is cut short
    nproc = max(1, min(a.j, len(tasks)))
    procs = [ctx.Process(target=worker, args=(q, out, mod, sorted(known), opts, deadline, stop)) for _ in range(nproc)]
    for i in order:
        q.put((i, tasks[i]))
    for p in procs:
        q.put(None)
    for p in procs:
        p.start()
    results = {}
    while len(results) < len(tasks):
        try:
            i, r = out.get(timeout=5)
            results[i] = r
            if a.v:
                print('task %s %s: %s' % (r['fn'], json.dumps(r['params']), 'SKIPPED' if r.get('skipped') else r.get('error') or
                      'paths %d wall %.1f obl %d complete %s traces %d/%d viol %d limits %d' % (
                          r['stats']['paths'], r['wall'], r['stats']['obligations'], r['complete'], r['traces_ok'],
                          r['traces_ok'] + r['traces_bad'], len(r['violations']), len(r['limits']))), flush=True)
        except Exception:
            if not any(p.is_alive() for p in procs) and out.empty():
                break
            if time.time() > deadline + 60:
                break
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.terminate()
    code = report(prop, a.tier, seed, hm, tasks, results, known, t0, a)
    sys.exit(code)


def report(prop, tier, seed, hm, tasks, results, known, t0, a):
    tot = dict(paths=0, branches=0, forks=0, queries=0, solver_s=0.0, unknown=0, checks=0, obligations=0, aborted=0)
    funcs, tags, samples, notes = set(), {}, [], []
    viols, limits, diverged, unconfirmed, knowns = [], 0, [], [], {}
    tr_ok = tr_bad = incomplete = 0
    errors = []
    per = []
    for i, t in enumerate(tasks):
        r = results.get(i)
        label = t['fn'] + ' ' + json.dumps(t['params'], sort_keys=True)
        if r is None or r.get('skipped'):
            incomplete += 1
            notes.append('not run (out of time or worker lost): ' + label)
            continue
        if r.get('error'):
            errors.append(label + ': ' + r['error'][-1500:])
            continue
        for k in tot:
            tot[k] += r['stats'].get(k, 0)
        funcs.update(r['funcs'])
        for k, n in r['tags'].items():
            tags[k] = tags.get(k, 0) + n
        if not r['complete']:
            incomplete += 1
            notes += [label + ': ' + n for n in r['notes'][:3]]
        limits += len(r['limits'])
        for l in r['limits'][:2]:
            notes.append('%s: not decided: %s' % (label, l['why']))
        tr_ok += r['traces_ok']
        tr_bad += r['traces_bad']
        diverged += r['diverged']
        for v in r['violations']:
            (viols if v['confirmed'] else unconfirmed).append((t, v))
        for k in r['known']:
            if k['confirmed']:
                knowns.setdefault(k['kf'], k['inputs'])
        for s in r['samples'][:1]:
            if len(samples) < 12:
                samples.append(dict(task=label, inputs=s))
        per.append(dict(task=label, paths=r['stats']['paths'], obligations=r['stats']['obligations'],
                        queries=r['stats']['queries'], solver_s=r['stats']['solver_s'], wall_s=r['wall'],
                        complete=r['complete']))
    code = 0
    for kf, inputs in sorted(knowns.items()):
        print('KNOWN-FINDING: property=%s %s (%s; e.g. %s)' % (prop, known[kf], kf, json.dumps(inputs)))
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    printed = 0
    seen = set()
    for t, v in viols:
        key = (t['fn'], tuple(sorted(set(v['msgs']))))
        if key in seen:
            continue
        seen.add(key)
        if printed < 10:
            os.makedirs(rdir, exist_ok=True)
            name = '%s-%s.json' % (prop, hashlib.sha1(json.dumps([t['fn'], t['params'], v['inputs']], sort_keys=True)
                                                      .encode()).hexdigest()[:10])
            path = os.path.join(rdir, name)
            with open(path, 'w') as f:
                json.dump(dict(property=prop, mod=prop.lower(), fn=t['fn'], params=t['params'], inputs=v['inputs'],
                               failed=v['replay']['failed'], err=v['replay'].get('err')), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s %s: %s on %s %s' % (t['fn'], json.dumps(t['params']), '; '.join(sorted(set(v['replay']['failed'])))[:600],
                                            json.dumps(v['inputs'])[:600], v['replay'].get('err') or ''))
            printed += 1
        code = 1
    expect = list(getattr(hm, 'EXPECT_TAGS', []))
    missing = [x for x in expect if not tags.get(x)]
    if missing:
        notes.append('expected situations not reached: ' + ', '.join(missing))
    for e in errors:
        print('ERROR', e)
    for _, v in unconfirmed[:5]:
        notes.append('solver counterexample not reproduced on the real code (not reported): %s %s' % (
            v['msgs'], json.dumps(v['inputs'])))
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(hm, 'LEVEL', 'model_checking'),
              wall_s=round(time.time() - t0, 2), violations=len(viols),
              assumptions=list(getattr(hm, 'ASSUMPTIONS', [])),
              coverage=dict(
                  states=tot['paths'] + tot['branches'], transitions=tot['forks'] + tot['paths'],
                  traces_validated_against_impl=tr_ok, samples=samples,
                  symbolic_paths=tot['paths'], branch_points=tot['branches'], infeasible_paths=tot['aborted'],
                  obligations=tot['obligations'], obligation_queries=tot['checks'], solver_queries=tot['queries'],
                  solver_s=round(tot['solver_s'], 2), solver_unknown=tot['unknown'],
                  solver='z3', bounds=getattr(hm, 'BOUNDS', {}).get(tier) if isinstance(getattr(hm, 'BOUNDS', None), dict)
                  and tier in hm.BOUNDS else getattr(hm, 'BOUNDS', ''),
                  functions_encoded=sorted(funcs), functions_encoded_count=len(funcs),
                  tasks=len(tasks), tasks_incomplete=incomplete, tasks_failed=len(errors),
                  undecided_paths=limits, unconfirmed_counterexamples=len(unconfirmed),
                  traces_diverging=tr_bad, situations_reached=tags, situations_missing=missing,
                  known_findings=sorted(knowns), exhaustive=(incomplete == 0 and limits == 0 and not errors),
                  notes=notes[:40], divergences=diverged[:3], per_task=per[:400]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    print('%s %s: %d tasks, %d paths, %d obligations, %d queries, solver %.1fs, traces %d ok / %d diverging, undecided %d, '
          'incomplete %d, unconfirmed %d, missing %s, wall %.1fs' % (
              prop, tier, len(tasks), tot['paths'], tot['obligations'], tot['queries'], tot['solver_s'], tr_ok, tr_bad,
              limits, incomplete, len(unconfirmed), missing, time.time() - t0))
    if a.v:
        for n in notes[:20]:
            print('  note:', n)
        for d in diverged[:2]:
            print('  diverged:', json.dumps(d)[:3000])
    if (errors or not per) and code == 0:
        code = 2
    return code


if __name__ == '__main__':
    main()
