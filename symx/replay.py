"""Concrete replay: runs harnesses on concrete inputs against the unmodified package. Separate process, no z3.

Line protocol on stdin/stdout (JSON): {"mod","fn","params","inputs","known"} -> {"status","failed","obs","known"}."""
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


def run_one(req):
    from symx.envbase import ConcEnv, Vacuous, canon
    hm = importlib.import_module('harness.' + req['mod'])
    E = ConcEnv(req['inputs'], req.get('known', ()))
    status = 'ok'
    err = None
    try:
        getattr(hm, req['fn'])(E, req['params'])
    except Vacuous:
        status = 'vacuous'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        err = '%s: %s (%s)' % (type(e).__name__, e, '; '.join('%s:%d' % (os.path.basename(x.filename), x.lineno)
                                                              for x in tb[-4:]))
        E.failed.append('uncaught exception ' + type(e).__name__)
        status = 'exc'
    obs = E.obs
    try:
        obs = canon(obs)
        json.dumps(obs)
    except Exception:
        obs = repr(obs)
    return dict(status=status, failed=E.failed, obs=obs, known=E.known_hits, err=err)


def serve():
    sys.path[:0] = [REPO, VERIF]
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(10000)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    import pkgutil
    import pash_annotations
    assert os.path.dirname(pash_annotations.__file__) == os.path.join(REPO, 'pash_annotations'), pash_annotations.__file__
    for mi in pkgutil.walk_packages(pash_annotations.__path__, 'pash_annotations.'):
        if not (mi.name.endswith('annotation_cli') or '-' in mi.name or '.tests' in mi.name):
            try:
                importlib.import_module(mi.name)
            except BaseException:
                pass
    for line in sys.stdin:
        req = json.loads(line)
        try:
            importlib.import_module('harness.' + req['mod'])
        except BaseException:
            pass
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    ans = run_one(req)
                except BaseException as e:
                    ans = dict(status='error', failed=[], obs=None, known=[], err=repr(e))
                data = json.dumps(ans).encode()
                i = 0
                while i < len(data):
                    i += os.write(w, data[i:])
            finally:
                os._exit(0)
        os.close(w)
        buf = b''
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
        os.close(r)
        os.waitpid(pid, 0)
        out.write((buf.decode() or json.dumps(dict(status='error', failed=[], obs=None, known=[], err='died'))) + '\n')
        out.flush()


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    serve()
