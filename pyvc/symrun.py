"""Worker: one obligation, symbolically.  usage: symrun.py OUT.json REPO PROP OB FIXJSON BUDGET TLIMIT"""
import faulthandler
import json
import os
import resource
import sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=work)
    t.start()
    t.join()


def work():
    out, repo, prop, obn, fix, budget, tl = sys.argv[1:8]
    base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, base)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from pyvc.ob import OBS
    import props
    props.load(prop)
    from pyvc import symh, env as envm
    from pyvc.concrun import harvest
    envm.POOL[:] = harvest(repo)
    symh.setup_opaque()
    ob = [o for o in OBS[prop] if o.name == obn][0]
    try:
        r = symh.run_ob(ob, repo, json.loads(fix), float(budget), float(tl))
    except MemoryError:
        r = {'ob': obn, 'status': 'unsupported', 'why': 'memory', 'checks': [], 'timeout': True}
    except BaseException as e:
        import traceback
        traceback.print_exc()
        r = {'ob': obn, 'status': 'unsupported', 'why': 'engine: %s: %s' % (type(e).__name__, e), 'checks': []}
    json.dump(r, open(out, 'w'), default=str)


if __name__ == '__main__':
    main()
