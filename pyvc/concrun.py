"""Worker under the project's own interpreter: cross-check of the contracts on the real code and replay of counterexamples.

usage: concrun.py OUT.json REPO PROP SEED SCALE [CEX.json]
"""
import ast
import glob
import io
import contextlib
import json
import os
import sys
import time
import warnings
os.environ.setdefault('NUMBA_DISABLE_JIT', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True


def harvest(repo):
    out = set()
    for f in glob.glob(os.path.join(repo, 'pySailingVLM', '**', '*.py'), recursive=True):
        if 'test' in f:
            continue
        try:
            for n in ast.walk(ast.parse(open(f).read())):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    out.add(float(n.value))
        except SyntaxError:
            pass
    return sorted(out)


def main():
    out, repo, prop, seed, scale = sys.argv[1:6]
    cexf = sys.argv[6] if len(sys.argv) > 6 else None
    base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, base)
    sys.path.insert(0, repo)
    warnings.simplefilter('ignore')
    from pyvc import env as envm, conch
    from pyvc.ob import OBS
    import props
    props.load(prop)
    envm.POOL[:] = [v for v in harvest(repo)]
    seed, scale = int(seed), float(scale)
    res = {}
    sink = io.StringIO()
    cex = json.load(open(cexf)) if cexf else None
    for ob in OBS.get(prop, []):
        if not ob.conc or (ob.thorough and scale <= 1 and not cex):
            continue
        if cex is not None and ob.name not in cex:
            continue
        t0 = time.time()
        r = {'trials': 0, 'ok': 0, 'skip': 0, 'checks': 0, 'fail': None}
        envs = []
        if cex is not None:
            envs = [envm.Env.restore(d) for d in cex[ob.name]]
        else:
            envs = [envm.Env((seed, k)) for k in range(max(1, int(ob.trials * scale)))]
        for e in envs:
            r['trials'] += 1
            sink.seek(0)
            sink.truncate()
            with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
                st, fails, n = conch.run_once(ob, e)
            r['checks'] += n
            if st == 'fail':
                r['fail'] = {'failures': [[str(x) for x in f] for f in fails[:8]], 'env': e.dump()}
                break
            r[st] += 1
            if time.time() - t0 > (40 if scale <= 1 else 200):
                break
        r['wall'] = round(time.time() - t0, 2)
        res[ob.name] = r
    json.dump(res, open(out, 'w'), default=str)


if __name__ == '__main__':
    main()
