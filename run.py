#!/opt/venv/bin/python
"""Check driver: run.py ID [--tier quick|thorough] | run.py --replay FILE"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import math
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('PYVC_REPO', '/repo')


def env():
    e = dict(os.environ)
    e.pop('PYTHONPATH', None)
    e.update(PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore')
    return e


def job(mode, name, tmp, opt, timeout):
    out = tempfile.mktemp(dir=tmp, suffix='.json')
    t0 = time.time()
    try:
        p = subprocess.run([PY, os.path.join(HERE, 'pyvc', 'worker.py'), mode, name, out, json.dumps(opt)], cwd=HERE, env=env(), capture_output=True, text=True, timeout=timeout)
        err = p.stderr[-2500:]
    except subprocess.TimeoutExpired:
        return {'harness': name, 'error': f'time limit of {timeout} s', 'crash': True, 'wall_s': time.time() - t0}
    if not os.path.exists(out):
        return {'harness': name, 'error': 'worker failed: ' + err, 'crash': True, 'wall_s': time.time() - t0}
    return json.load(open(out))


def harnesses():
    sys.path.insert(0, HERE)
    from pyvc import vc
    vc.load_contracts()
    return vc.HARNESSES


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.setup: sys.exit(setup())
    if a.replay: return replay(a.replay)
    sys.exit(check(a.prop, 'thorough' if a.tier == 'thorough' else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1), a.only, a.v))


def replay(path):
    r = json.load(open(path))
    if 'input_pickle' not in r:
        print(json.dumps(r, indent=1)[:4000]); print('no failing input recorded'); return
    tmp = tempfile.mkdtemp()
    try:
        import base64
        g = os.path.join(tmp, 'in.pkl')
        open(g, 'wb').write(base64.b64decode(r['input_pickle']))
        rep = job('conc', r['harness'], tmp, {'given': g, 'runs': 1}, 600)
        print(json.dumps(rep, indent=1)[:6000])
        sys.exit(1 if rep.get('violation') else 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    """engine self-test: correct toy functions are accepted, broken ones are not"""
    p = subprocess.run([PY, os.path.join(HERE, 'pyvc', 'selftest.py')], cwd=HERE, env=env())
    return p.returncode


def check(prop, tier, seed, only=None, verbose=False):
    t0 = time.time()
    H = {n: h for n, h in harnesses().items() if prop in h['props'] and (not only or n in only.split(','))}
    if not H:
        print(f'no harness for {prop}'); return 2
    deep = tier == 'thorough'
    tmp = tempfile.mkdtemp(prefix='pyvc')
    proofs, concs = {}, {}
    hard = 2400 if deep else 780
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            futs = {}
            order = sorted(H.items(), key=lambda kv: -kv[1]['opts'].get('weight', 1))
            for n, h in order:
                if h['kind'] == 'proof':
                    over = {'limit': h['limit'] * 3, 'solver': h['solver'] * 3} if deep else {}
                    futs[ex.submit(job, 'proof', n, tmp, {'over': over}, min(hard, (over or h)['limit'] + 60))] = ('proof', n)
            for n, h in order:
                if h['kind'] in ('proof', 'bounded') and h['runs'] and not h['opts'].get('internal'):
                    k = h['opts'].get('shards', 1) * (4 if deep else 1)
                    for s in range(k):
                        o = {'seed': f'{seed}.{s}' if s else str(seed), 'pickle': os.path.join(tmp, f'{n}.{s}.pkl')}
                        if deep: o.update(runs=h['runs'] * 6, budget=h['budget'] * 6)
                        futs[ex.submit(job, 'conc', n, tmp, o, hard)] = ('conc', n, s)
                elif h['kind'] == 'finding':
                    futs[ex.submit(job, 'conc', n, tmp, {'seed': str(seed), 'runs': 1}, hard)] = ('finding', n, 0)
            findings = {}
            for f in cf.as_completed(futs):
                k = futs[f]
                r = f.result()
                if k[0] == 'proof': proofs[k[1]] = r
                elif k[0] == 'finding': findings[k[1]] = r
                else: concs.setdefault(k[1], []).append((k[2], r))
                if verbose: print('done', k, r.get('wall_s'), r.get('error') or '', file=sys.stderr)
        violations = []   # (harness, label, detail, inputs, pickle|None, proof report)
        confirmed = set()
        for n, rs in sorted(concs.items()):
            for s, r in sorted(rs, key=lambda x: x[0]):
                if r.get('crash'):
                    violations.append((n, 'the run-time check could not be run', r['error'], None, None)); confirmed.add(n); break
                v = r.get('violation')
                if v:
                    violations.append((n, v['label'], v['detail'], v['inputs'], os.path.join(tmp, f'{n}.{s}.pkl')))
                    confirmed.add(n)
                    break
        failed = []
        for n, r in sorted(proofs.items()):
            if r.get('error'): failed.append((n, r['error'], None))
            for o in r.get('obligations', []):
                if not o['ok']: failed.append((n, o['label'], o))
        # replay counter-models on the real code
        tried = {}
        for n, label, o in failed:
            if n in confirmed: continue
            if o and o.get('model') and not H[n]['opts'].get('internal'):
                g = os.path.join(tmp, f'{n}.model.pkl')
                pickle.dump(o['model'], open(g, 'wb'))
                r = job('conc', n, tmp, {'given': g, 'runs': 1, 'pickle': os.path.join(tmp, f'{n}.m.pkl')}, 200)
                v = r.get('violation')
                if v:
                    violations.append((n, v['label'], f'{v["detail"]} (counter-model of obligation "{label}")', v['inputs'], os.path.join(tmp, f'{n}.m.pkl')))
                    confirmed.add(n)
        left = time.time() - t0
        public = [n for n in H if H[n]['runs'] and H[n]['kind'] in ('proof', 'bounded') and not H[n]['opts'].get('internal')]
        # where a proof fails and nothing confirms it, every public contract of the property is searched longer
        todo = sorted(n for n in public if n not in confirmed) if failed and not confirmed else sorted({n for n, _, _ in failed if n not in confirmed and n in public})
        if todo:
            per = max(10, min(90, (600 - left) / max(1, math.ceil(len(todo) * 3 / 8))))
            with cf.ThreadPoolExecutor(max_workers=8) as ex:
                fs = {ex.submit(job, 'conc', n, tmp, {'seed': f'{seed}.search{s}', 'runs': 10 ** 6, 'budget': per, 'pickle': os.path.join(tmp, f'{n}.s{s}.pkl')}, per + 120): (n, s) for n in todo for s in range(3)}
                for f in cf.as_completed(fs):
                    n, s = fs[f]
                    v = f.result().get('violation')
                    tried[n] = tried.get(n, 0) + f.result().get('evaluations', 0)
                    if v and n not in confirmed:
                        violations.append((n, v['label'], v['detail'], v['inputs'], os.path.join(tmp, f'{n}.s{s}.pkl')))
                        confirmed.add(n)
        for n, label, o in failed:
            if n not in confirmed:
                violations.append((n, label, None, None, None))
        # report
        lines = []
        seen = set()
        for n, label, detail, inputs, pk in violations:
            if (n, label) in seen: continue
            seen.add((n, label))
            rp = {'property': prop, 'harness': n, 'target': H[n]['target'], 'obligation': label, 'detail': detail, 'inputs': inputs}
            pr = proofs.get(n)
            if pr:
                rp['verifier'] = {'error': pr.get('error'), 'where': pr.get('where'), 'obligations': [{k: o.get(k) for k in ('label', 'ok', 'verdict', 'model', 'query')} for o in pr.get('obligations', []) if not o['ok']]}
            if pk and os.path.exists(pk):
                import base64
                rp['input_pickle'] = base64.b64encode(open(pk, 'rb').read()).decode()
                rp['replay_cmd'] = 'run.py --replay <this file>'
            else:
                rp['concrete_search_evaluations'] = tried.get(n, 0)
            hid = hashlib.sha1(f'{n}{label}'.encode()).hexdigest()[:8]
            path = os.path.join(HERE, 'replays', f'{prop}-{n}-{hid}.json')
            json.dump(rp, open(path, 'w'), indent=1, default=str)
            found = inputs is not None
            lines.append((not found, f'VIOLATION property={prop} replay={path}' + ('' if found else ' no-failing-input-found'), f'  {n} [{", ".join(H[n]["target"])}]: {label}' + (f': {detail}' if detail else '') + (f'; inputs {json.dumps(inputs, default=str)[:600]}' if found else '')))
        lines.sort(key=lambda x: x[0])
        # known findings
        known = known_findings()
        for n, r in sorted(findings.items()):
            if r.get('violation') or r.get('crash'):
                d = known.get((prop, n))
                if d is None:
                    lines.insert(0, (False, f'VIOLATION property={prop} replay={HERE}/known_findings.txt', f'  {n}: unlisted finding {r}'))
                else: print(f'KNOWN-FINDING: property={prop} {d}')
        ev = evidence(prop, tier, seed, H, proofs, concs, findings, len(lines), time.time() - t0)
        json.dump(clean(ev), open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w'), indent=1, default=str)
        for _, l, d in lines:
            print(l); print(d)
        c = ev['coverage']
        print(f'{prop}: {c["discharged"]}/{c["obligations"]} obligations discharged in {len(proofs)} contract harnesses; {c["runtime_checks"]["evaluations"]} run-time evaluations; {ev["wall_s"]:.0f} s')
        return 1 if lines else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def clean(x):
    if isinstance(x, float) and not math.isfinite(x): return str(x)
    if isinstance(x, dict): return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [clean(v) for v in x]
    return x


def known_findings():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                kv = l.split(None, 3)
                out[(kv[1].split('=')[1], kv[2].split('=')[1])] = kv[3].strip()
    return out


def evidence(prop, tier, seed, H, proofs, concs, findings, nviol, wall):
    obl = dis = 0
    be, funcs, assumed, files = {}, [], set(), {}
    solver = 0.0
    per = []
    for n, r in sorted(proofs.items()):
        o = r.get('obligations', [])
        paths = sum(x['paths'] for x in o)
        ok = sum(1 for x in o if x['ok'])
        obl += len(o); dis += ok
        for x in o:
            for k, v in x['backends'].items(): be[k] = be.get(k, 0) + v
        solver += r.get('stats', {}).get('solver_s', 0)
        for m in r.get('modules', {}).values(): files[m['path']] = m['sha256'][:16]
        per.append({'harness': n, 'functions': H[n]['target'], 'obligations': len(o), 'discharged': ok, 'path_obligations': paths, 'paths': r.get('n_paths'),
                    'labels': [x['label'] for x in o], 'queries': r.get('stats', {}).get('queries'), 'wall_s': r.get('wall_s'), 'error': r.get('error'), 'end_reachable': any(r.get('canary') or [])})
        for f in H[n]['target']:
            if f not in funcs: funcs.append(f)
        for a in H[n]['opts'].get('assumes', []): assumed.add(a)
        for a in r.get('notes', []): assumed.add(a)
    ev, ch, dn, sk, samples, bounded = 0, 0, 0, 0, [], []
    for n, rs in sorted(concs.items()):
        e = sum(r.get('evaluations', 0) for _, r in rs)
        ev += e
        ch += sum(r.get('checks', 0) for _, r in rs)
        dn += sum(r.get('distinct', 0) for _, r in rs)
        for _, r in rs[:1]:
            for s in r.get('samples', [])[:1]: samples.append({'harness': n, 'inputs': s})
        if H[n]['kind'] == 'bounded':
            bounded.append({'harness': n, 'functions': H[n]['target'], 'bound': H[n]['opts'].get('bound', 'sampled inputs only'), 'evaluations': e})
    base = ['the loader: loops, comprehensions and builtins of /repo code are hooked mechanically (pyvc/loader.py), the rest is executed by CPython as written',
            'the generator pyvc (path exploration, loop summaries, models of math/numpy operations in pyvc/npshim.py)',
            'axiom instances for exp, log, sqrt (pyvc/discharge.py)',
            'z3 %s and cvc5 as back ends' % z3v(),
            'float arithmetic is treated as exact arithmetic on the extended reals (inf and NaN kept); integers are unbounded as in Python']
    level = 'proof' if proofs else 'exploration'
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
            'coverage': {'obligations': obl, 'discharged': dis, 'checker_cmd': f'python run.py {prop} --tier {tier}', 'trusted_base': base,
                         'functions_under_contract': funcs, 'harnesses': per, 'back_ends_per_path_obligation': be, 'solver_s': round(solver, 1), 'extracted_from': files,
                         'bounded_stand_ins_not_counted_as_proved': bounded,
                         'runtime_checks': {'evaluations': ev, 'assertions': ch, 'distinct_inputs': dn, 'note': 'the same contracts evaluated on the unmodified code for seeded inputs; not counted as proof'},
                         'evaluations': ev, 'distinct_nontrivial': dn, 'rule': 'seeded generators of the contract harnesses; distinct input tuples that satisfy the precondition', 'samples': samples[:12]},
            'assumptions': sorted(assumed) + ['floating-point rounding is outside the proofs'], 'wall_s': round(wall, 1), 'violations': nviol}


_z = []


def z3v():
    if not _z:
        try:
            sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
            import z3
            _z.append(z3.get_version_string())
        except Exception: _z.append('?')
    return _z[0]


if __name__ == '__main__':
    main()
