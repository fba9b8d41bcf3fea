import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'


def main(argv):
    from mc import build, core, meta
    if argv[:1] == ['--setup']:
        d = build.build()
        print('built', d)
        return 0
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    jobs = int(os.environ.get('MC_JOBS', '8'))
    path = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a == '--tier':
            tier = rest.pop(0)
        elif a == '--jobs':
            jobs = int(rest.pop(0))
        elif a == '--replay':
            path = rest.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    p = [q for q in meta.P if q['id'] == prop][0]
    d = build.build()
    sys.path.insert(0, d)
    try:
        import pykrylov.linop, pykrylov.cg, pykrylov.cgs, pykrylov.bicgstab, pykrylov.tfqmr
        import pykrylov.minres, pykrylov.symmlq, pykrylov.lls, pykrylov.tools, pykrylov.gallery
    except Exception as e:
        print('cannot import the package: %s: %s' % (type(e).__name__, e))
        print('VIOLATION property=%s replay=%s' % (prop, 'import'))
        return 1
    mod = importlib.import_module('mc.props.' + prop.lower())
    if path:
        return core.replay(mod, prop, tier, seed, path)
    return core.explore(mod, prop, p['level'], tier, seed, jobs)


if __name__ == '__main__':
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
