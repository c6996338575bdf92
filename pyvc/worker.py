"""Subprocess worker: python -m pyvc.worker (proof|conc|replay) HARNESS OUT [json options]"""
import json
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
REPO = os.environ.get('PYVC_REPO', '/repo')


def real_path():
    for p in (REPO + '/python/dp_accounting', REPO + '/learning'):
        if p not in sys.path: sys.path.insert(0, p)


def main():
    mode, name, out = sys.argv[1:4]
    opt = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
    sys.dont_write_bytecode = True
    real_path()
    from pyvc import vc
    from pyvc import stubs
    stubs.install()
    vc.load_contracts()
    h = vc.HARNESSES[name]
    h = dict(h, **opt.get('over', {}))
    if mode == 'proof':
        rep = vc.run_symbolic(h)
        from pyvc import loader
        rep['modules'] = loader.LOADED
        rep['transformed'] = True
    else:
        given = pickle.load(open(opt['given'], 'rb')) if opt.get('given') else None
        rep = vc.run_concrete(h, opt.get('seed', 1), opt.get('runs', h['runs']), opt.get('budget', h['budget']), given)
        v = rep.get('violation')
        if v:
            raw = v.pop('raw', None)
            if opt.get('pickle'):
                try: pickle.dump(raw, open(opt['pickle'], 'wb'))
                except Exception: pass
    with open(out, 'w') as f: json.dump(rep, f, default=str)


if __name__ == '__main__':
    main()
