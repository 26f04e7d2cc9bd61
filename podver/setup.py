"""setup: compile (in parallel) what the checks will need on the unchanged tree, to fill the cache"""
import concurrent.futures as cf, glob, importlib, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, VERIF)
import build as B
t0 = time.time()
b = B.Build()
try:
    items = {}
    try:
        b.gen()
    except B.BuildError as ex:
        print('generator:', str(ex)[-300:])
    for p in sorted(glob.glob(VERIF + '/props/[CP][0-9][0-9].py')):
        try:
            mod = importlib.import_module('props.' + os.path.basename(p)[:-3])
            for h in getattr(mod, 'HARNESS', []):
                src, o = (h, {}) if isinstance(h, str) else h
                for it in b.harness_items(os.path.join(VERIF, 'harness', src), **o):
                    items[(it[0], tuple(it[1]), it[2])] = it
            if hasattr(mod, 'modules'):
                for it in b.ir_items(mod.modules(b)):
                    items[(it[0], tuple(it[1]), it[2])] = it
        except Exception as ex:
            print(p, type(ex).__name__, str(ex)[-300:])
    def one(it):
        try:
            b.compiled(*it)
        except Exception as ex:
            print(it[0], str(ex)[-500:])
    with cf.ThreadPoolExecutor(b.jobs) as ex:
        list(ex.map(one, items.values()))
    print(f'setup: {len(items)} translation units in {time.time()-t0:.1f} s')
finally:
    b.close()
