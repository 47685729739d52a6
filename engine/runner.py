"""Concrete side, under the repository's interpreter: replays counter-models and searches for failing inputs.

  runner.py search UNIT[,UNIT...] --seed N --budget SECONDS --cases N   one JSON line per unit
  runner.py replay FILE                                                 {"unit":..., "values":...} -> one JSON line
"""
import argparse
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
FIRST = os.environ.get('VERIF_FIRST')      # stop at the first failure (mutation experiments)
sys.path[:] = [os.path.join(REPO, 'src')] + [p for p in sys.path if p != '/repo/src']
import infi  # noqa
infi.__path__ = [os.path.join(REPO, 'src', 'infi')] + [p for p in list(infi.__path__) if '/repo/' not in p]

from engine import specapi, vconc  # noqa


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def run(unit, seed, given=None, limit=6.0, findings=()):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return vconc.run_case(unit, seed, given, findings)
    except Hang:
        return ('hang', traceback.format_exc()[-1500:], {})
    except MemoryError:
        return ('hang', 'MemoryError', {})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def weight(vals):
    t = 0
    for v in vals.values():
        t += len(v) if isinstance(v, str) else abs(v).bit_length() if isinstance(v, int) else 1
    return t + len(vals)


def classify(r, unit, seed, findings):
    """-> None or failure dict"""
    if r[0] == 'fail':
        return dict(check=r[1], detail=r[2][:1500], values=r[3], seed=seed)
    if r[0] == 'error' and r[4]:
        return dict(check='no-exception', detail=r[2][-1500:], values=r[3], seed=seed)
    if r[0] == 'hang':
        again = run(unit, seed, None, 8.0 if FIRST else 30.0, findings)
        if again[0] == 'hang':
            return dict(check='terminates', detail=again[1], values={}, seed=seed)
        return classify(again, unit, seed, findings) if again[0] != 'ok' else None
    return None


def search(unit, seed, budget, cases, findings):
    t0 = time.time()
    out = dict(unit=unit.name, cases=0, ok=0, rejected=0, checks=0, fails=[], errors=[], known={}, distinct=0, sample=None)
    seen = set()
    k = 0
    names = set()
    while (k < cases or out['ok'] < cases and k < 8 * cases) and time.time() - t0 < budget:
        s = '%s/%s/%d' % (seed, unit.name, k)
        k += 1
        out['cases'] += 1
        r = run(unit, s, None, 6.0, findings)
        if r[0] == 'ok':
            out['ok'] += 1
            out['checks'] += r[1]
            key = hash(json.dumps(r[2], sort_keys=True, default=str))
            if key not in seen:
                seen.add(key)
                if r[1]:
                    out['distinct'] += 1
                    out['sample'] = r[2]
        elif r[0] == 'reject':
            out['rejected'] += 1
        elif r[0] == 'known':
            d = out['known'].setdefault(r[1], dict(n=0, check=r[2], detail=r[3][:400], values=r[4]))
            d['n'] += 1
        else:
            f = classify(r, unit, s, findings)
            if f is not None:
                old = [x for x in out['fails'] if x['check'] == f['check']]
                if not old:
                    out['fails'].append(f)
                elif weight(f['values']) < weight(old[0]['values']):
                    out['fails'][out['fails'].index(old[0])] = f
                names.add(f['check'])
                if out['fails'] and (k > 40 + 0.1 * cases or FIRST):
                    break
            elif r[0] == 'error' and len(out['errors']) < 3:
                out['errors'].append(r[2][-1200:])
    out['wall'] = round(time.time() - t0, 2)
    return out


def load_findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f['id'] for f in json.load(open(p)).get('findings', [])]


def load_units(names):
    props = sorted({n.split('.')[0] for n in names})
    for p in props:
        importlib.import_module('specs.' + p.lower())
    return [specapi.UNITS[n] for n in names]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('mode')
    ap.add_argument('arg')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--budget', type=float, default=10)
    ap.add_argument('--cases', type=float, default=1.0, help='factor on the number of cases of the units')
    a = ap.parse_args()
    findings = load_findings()
    if a.mode == 'search':
        units = load_units(a.arg.split(','))
        for u in units:
            r = search(u, a.seed, a.budget, int(u.cases * a.cases), findings)
            print(json.dumps(r, default=str))
            sys.stdout.flush()
            if r['fails'] and FIRST:
                break
    else:
        d = json.load(open(a.arg))
        u = load_units([d['unit']])[0]
        if d.get('seed') is not None and not d.get('values'):
            r = run(u, d['seed'], None, 60.0, findings)
        else:
            r = run(u, d.get('seed') or 'replay', d['values'], 60.0, findings)
        print(json.dumps(dict(result=list(r)), default=str))


if __name__ == '__main__':
    main()
