"""Runs one task (harness function + parameters) symbolically; used in forked worker processes."""
import importlib
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'pash_annotations'

_ready = {}


def skip_module(name):
    """Scripts and tests are not imported."""
    return name.endswith('annotation_cli') or '-' in name or '.tests' in name



def setup():
    if _ready:
        return _ready
    import z3
    from . import core, shims, instrument, env
    sys.setrecursionlimit(20000)
    instrument.install(PKG, REPO)
    instrument.install('harness', VERIF)
    shims.HOOKS['shlex'] = instrument.load_instrumented_stdlib('shlex', {'StringIO': shims.SymStringIO})
    _ready.update(z3=z3, core=core, shims=shims, instrument=instrument, env=env)
    funcs = set()
    _ready['funcs'] = funcs
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, 'symx')
    prefix = os.path.join(REPO, PKG) + os.sep

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(prefix):
            funcs.add(fn[len(prefix):-3].replace(os.sep, '.') + ':' + code.co_qualname)
        elif fn.endswith('/shlex.py'):
            funcs.add('shlex:' + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return _ready


def concretise(ins, m, z3, core):
    out = {}
    from .env import ev
    for name, kind, x in ins:
        if kind == 'word':
            out[name] = ev(x, m) if not isinstance(x, str) else x
        else:
            out[name] = m.eval(x, model_completion=True).as_long()
    return out


def run_task(mod, fn, params, budget_s, known, opts, stop=None):
    """Explore one harness. Returns a result dict (picklable)."""
    R = setup()
    z3, core, shims, envm = R['z3'], R['core'], R['shims'], R['env']
    t0 = time.time()
    hm = importlib.import_module('harness.' + mod)
    f = getattr(hm, fn)
    if 'preload' not in R:
        R['preload'] = True
        import pkgutil
        pk = importlib.import_module(PKG)
        for mi in pkgutil.walk_packages([os.path.join(REPO, PKG)], PKG + '.'):
            if skip_module(mi.name):
                continue
            try:
                importlib.import_module(mi.name)
            except BaseException as e:  # a broken module shows up where it is used
                pass
        R['guard'] = R['instrument'].StateGuard(PKG)
    guard = R['guard']
    R['funcs'].clear()
    sys.monitoring.restart_events()
    eng = core.Engine(query_timeout_ms=opts.get('query_timeout_ms', 20000))
    core.set_engine(eng)
    res = dict(mod=mod, fn=fn, params=params, violations=[], limits=[], traces=[], tags={}, known=[], notes=[],
               complete=True, samples=[])
    max_viol = opts.get('max_viol', 4)
    trace_cap = opts.get('trace_cap', 150)
    rng = random.Random(opts.get('seed', 1))
    seen_msgs = {}
    npaths = t_viol = 0
    known_seen = set()
    while True:
        if time.time() - t0 > budget_s:
            res['complete'] = False
            res['notes'].append('time budget of %ds reached after %d paths' % (budget_s, npaths))
            break
        if t_viol and time.time() - t_viol > opts.get('grace', 1e9) or stop is not None and 0 < stop.value < time.time():
            res['complete'] = False
            res['cut'] = True
            res['notes'].append('stopped after violations')
            break
        eng.begin()
        guard.restore()
        env = envm.SymEnv(known)
        env.guard = guard
        shims.HOOKS['print'] = shims.HOOKS['open'] = None
        status = 'ok'
        err = None
        try:
            f(env, params)
        except core.PathAbort:
            status = 'abort'
        except core.Limit as e:
            status = 'limit'
            err = str(e)
        except RecursionError as e:
            status = 'limit'
            err = 'recursion'
        except Exception as e:
            if shims.proxyish(e):
                status = 'limit'
                err = '%s: %s' % (type(e).__name__, e)
            else:
                status = 'exc'
            tb = traceback.extract_tb(e.__traceback__)
            err = '%s: %s (%s)' % (type(e).__name__, e, '; '.join('%s:%d' % (os.path.basename(x.filename), x.lineno)
                                                                  for x in tb[-3:]))
        if status == 'abort':
            eng.stats['aborted'] += 1
        elif status == 'limit':
            if eng.pos < len(eng.prefix):
                # re-execution diverged: drop the rest of this prefix
                while len(eng.prefix) > eng.pos:
                    d = eng.prefix.pop()
                    if d.pushed:
                        eng.s.pop()
            npaths += 1
            if len(res['limits']) < 60:
                ent = dict(why=err, inputs=[])
                _sample(eng, env, z3, core, ent['inputs'], opts.get('limit_samples', 12))
                res['limits'].append(ent)
            else:
                res['limits'].append(dict(why=err, inputs=[]))
        else:
            npaths += 1
            eng.stats['paths'] += 1
            if status == 'exc':
                env.obls.append((False, 'uncaught exception ' + err.split(':')[0]))
            for t, n in env.tags.items():
                res['tags'][t] = res['tags'].get(t, 0) + n
            bad = core.g_or(*[core.g_not(g) for g, m in env.obls])
            eng.stats['checks'] += 1
            eng.stats['obligations'] += len(env.obls)
            need_model = len(res['traces']) < trace_cap or rng.random() < 0.02 and len(res['traces']) < 4 * trace_cap
            r = z3.unsat if bad is False else eng.sat_with(bad)
            if r == z3.unknown:
                res['complete'] = False
                res['notes'].append('solver answered unknown on an obligation')
            if r == z3.sat:
                t_viol = t_viol or time.time()
                m = eng.s.model()
                msgs = []
                for g, msg in env.obls:
                    if g is False or (g is not True and not z3.is_true(m.eval(g, model_completion=True))):
                        msgs.append(msg)
                key = tuple(sorted(set(msgs)))
                seen_msgs[key] = seen_msgs.get(key, 0) + 1
                if seen_msgs[key] <= 3:
                    res['violations'].append(dict(inputs=concretise(env.ins, m, z3, core), msgs=msgs, err=err))
            for kf, g in env.known_obl:
                if kf not in known_seen and g is not False and eng.sat_with(g) == z3.sat:
                    m = eng.s.model()
                    known_seen.add(kf)
                    res['known'].append(dict(kf=kf, inputs=concretise(env.ins, m, z3, core)))
            if need_model and status == 'ok' and r != z3.sat:
                if eng._check() == z3.sat:
                    m = eng.s.model()
                    inp = concretise(env.ins, m, z3, core)
                    try:
                        obs = envm.canon(envm.ev(env.obs, m))
                        res['traces'].append((inp, obs))
                        if len(res['samples']) < 3:
                            res['samples'].append(inp)
                    except core.Limit as e:
                        res['notes'].append('observation: %s' % e)
            if sum(1 for v in res['violations']) >= max_viol * 3 or len(seen_msgs) > max_viol:
                res['complete'] = False
                res['notes'].append('stopped after violations')
                break
        if not eng.backtrack():
            break
    res['stats'] = dict(eng.stats)
    res['stats']['solver_s'] = round(res['stats']['solver_s'], 3)
    res['funcs'] = sorted(R['funcs'])
    res['wall'] = round(time.time() - t0, 2)
    return res


def _sample(eng, env, z3, core, out, k):
    """Some models of a path the executor could not finish (explored concretely, reported as not decided)."""
    eng.s.push()
    try:
        for _ in range(k):
            if eng._check() != z3.sat:
                return
            m = eng.s.model()
            out.append(concretise(env.ins, m, z3, core))
            diff = []
            for name, kind, x in env.ins:
                if kind == 'word' and isinstance(x, core.SxVal):
                    diff.append(core.g_not(core.eq_guard(x, out[-1][name])))
                elif kind != 'word':
                    diff.append(x != m.eval(x, model_completion=True))
            g = core.g_or(*diff)
            if g is False:
                return
            if g is not True:
                eng.s.add(g)
    finally:
        eng.s.pop()
