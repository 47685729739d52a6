#!/usr/bin/env python3
"""check.py PROPERTY   decides one property on /repo's current tree (see DESIGN.md).

Exit 0: every obligation discharged, or (labelled so in the evidence) nothing found by the bounded stand-ins.
Exit 1: VIOLATION line(s).  Exit 2: the check could not run."""
import concurrent.futures as cf
import importlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PYPY = os.environ.get('VERIF_PYPY', '/opt/venv-pypy/bin/python')
VT = os.environ.get('VERIF_VT', 'python3-vt')
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

TRUSTED = [
    'z3 5.3 and cvc5 1.1.2 (back ends)',
    'engine/: the symbolic executor and its source transformation (what it rewrites: engine/transform.py docstring and DESIGN.md)',
    'assumed contracts of CPython/PyPy builtins and of struct, json, codecs (engine/trusted.py, engine/rt.py)',
    'integers are mathematical; floats holding sizes and offsets are exact multiples of an eighth (their magnitude < 2**50)',
    'metaclass and class-construction code runs concretely on the classes the specifications declare',
]


TOKENS = os.pipe2(os.O_NONBLOCK)


def sym_job(name, budget, d):
    out = os.path.join(d, name + '.json')
    t0 = time.time()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env['VERIF_TOKENS'] = '%d,%d' % TOKENS
    p = subprocess.Popen([VT, os.path.join(HERE, 'engine', 'worker.py'), name, str(budget), out], pass_fds=TOKENS,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=HERE, start_new_session=True)
    try:
        tail = p.communicate(timeout=budget + 60)[0].decode('utf-8', 'replace')[-800:]
    except subprocess.TimeoutExpired:
        tail = 'killed after %ds' % (budget + 60)
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    try:
        os.write(TOKENS[1], b'x')
    except BlockingIOError:
        pass
    if os.path.exists(out):
        r = json.load(open(out))
    else:
        r = dict(unit=name, status='error', error='worker ended without a result: ' + tail, obligations=0, discharged=0,
                 obls={}, refutations=[])
    r['wall_total'] = round(time.time() - t0, 1)
    return r


def limit_mem():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def conc_job(names, seed, budget, factor):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        p = subprocess.run([PYPY, '-W', 'ignore', os.path.join(HERE, 'engine', 'runner.py'), 'search', ','.join(names),
                            '--seed', str(seed), '--budget', str(budget), '--cases', str(factor)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=len(names) * (budget + 80) + 60, env=env,
                           cwd=HERE, preexec_fn=limit_mem)
        lines, err = p.stdout.decode(), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        lines, err = (e.stdout or b'').decode(), 'timeout'
    out = {}
    for l in lines.splitlines():
        try:
            r = json.loads(l)
            out[r['unit']] = r
        except ValueError:
            err += l
    for n in names:
        if n not in out:
            out[n] = dict(unit=n, crashed=err[-1500:], cases=0, ok=0, rejected=0, checks=0, fails=[], errors=[], known={},
                          distinct=0, sample=None, wall=0)
    return out


def replay(path):
    try:
        p = subprocess.run([PYPY, '-W', 'ignore', os.path.join(HERE, 'engine', 'runner.py'), 'replay', path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150, cwd=HERE, preexec_fn=limit_mem,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
        return json.loads(p.stdout.decode().splitlines()[-1])['result']
    except Exception as e:
        return ['none', repr(e)]


def oversized(vals):
    return any(isinstance(v, int) and abs(v) > 1 << 22 or isinstance(v, str) and len(v) > 1 << 20 for v in vals.values())


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from engine import specapi
    importlib.import_module('specs.' + prop.lower())
    units = [u for u in specapi.UNITS.values() if u.prop == prop]
    thorough = tier == 'thorough'
    factor = 25 if thorough else 1
    cbudget = 60 if thorough else 6
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    for f in os.listdir(evdir):
        if f.startswith('replay-%s-' % prop):
            os.unlink(os.path.join(evdir, f))
    d = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        symu = [u for u in units if u.sym]
        concu = [u for u in units if u.conc]
        nproc = max(1, min(3, len(concu)))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            cfut = [ex.submit(conc_job, [u.name for u in concu[i::nproc]], seed, cbudget, factor) for i in range(nproc)] if concu else []
            order = sorted(symu, key=lambda u: -u.budget)
            # every finished job frees a core for the forked paths of the ones still running
            os.write(TOKENS[1], b'x' * max(0, JOBS - len(symu) - len(cfut)))
            sfut = {u.name: ex.submit(sym_job, u.name, u.budget * (4 if thorough else 1), d) for u in order}
            conc = {}
            for f in cfut:
                conc.update(f.result())
            syms = {n: f.result() for n, f in sfut.items()}
        violations, undecided, known = [], [], {}
        # failing inputs of the concrete runs
        reported = set()

        def report(unit, check, payload, suffix=''):
            path = os.path.join(evdir, 'replay-%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]+', '_', unit + '-' + check)))
            payload = dict(payload, property=prop, unit=unit, check=check,
                           replay_cmd='%s -W ignore %s replay %s' % (PYPY, os.path.join(HERE, 'engine', 'runner.py'), path))
            with open(path, 'w') as f:
                json.dump(payload, f, indent=1, default=str)
            violations.append((unit, check, path, suffix))

        refuted_units = {n: r for n, r in syms.items() if r.get('refutations')}
        for n, r in sorted(conc.items()):
            for f in r['fails']:
                sym = 'obligation %s refuted' % f['check'] if n in refuted_units else 'found by search'
                report(n, f['check'], dict(values=f['values'], seed=f['seed'], detail=f['detail'], source=sym))
                reported.add(n)
            for k, v in r['known'].items():
                known.setdefault(k, (n, v))
        # counter-models
        for n, r in sorted(refuted_units.items()):
            if n in reported:
                continue
            spurious, other, hit = [], [], False
            for check, vals in r['refutations']:
                path = os.path.join(d, 'cm.json')
                with open(path, 'w') as f:
                    json.dump(dict(unit=n, values=vals), f, default=str)
                res = replay(path)
                if res[0] == 'hang' and oversized(vals):
                    res = ['none', 'the machine cannot hold the counter-model']
                if res[0] == 'fail' or (res[0] == 'error' and res[4]) or res[0] == 'hang':
                    report(n, check, dict(values=vals, detail=str(res[1:3]), source='counter-model of obligation %s' % check))
                    hit = True
                    break
                (spurious if res[0] == 'ok' else other).append((check, vals, res))
            if hit:
                continue
            if specapi.UNITS[n].conc:
                more = conc_job([n], seed + 7919, cbudget * 3, factor * 6)[n]
                if more['fails']:
                    f = more['fails'][0]
                    report(n, f['check'], dict(values=f['values'], seed=f['seed'], detail=f['detail'], source='search after a refuted obligation'))
                    continue
            # with a loop contract dropped, calls by contract of that loop's function no longer stand for what it does
            if other and not spurious and not r.get('restarts'):
                check, vals, res = other[0]
                report(n, check, dict(obligation=check, verifier_output=r, counter_model=vals, replay_result=res), ' no-failing-input-found')
            else:
                undecided.append(n)
        proved, bounded = [], []
        for u in units:
            r = syms.get(u.name)
            st = r['status'] if r else None
            if st == 'proved':
                proved.append(u.name)
            else:
                bounded.append((u.name, st or 'not attempted: ' + (u.bounded or 'outside the verifier'), r))
        crashed = [n for n, r in conc.items() if r.get('crashed')]
        nothing = all(r['ok'] == 0 and not r['fails'] for r in conc.values()) and not proved
        for n, r in sorted(conc.items()):
            if r.get('crashed'):
                print('NOTE %s: concrete run ended early: %s' % (n, r['crashed'][-300:].replace('\n', ' | ')))
            elif r['errors'] and not r['fails']:
                print('NOTE %s: %d harness error(s): %s' % (n, len(r['errors']), r['errors'][0][-300:].replace('\n', ' | ')))
        for n, st, r in bounded:
            why = ''
            if r:
                why = '; '.join(str(x) for x in (r.get('unsupported') or []) + (r.get('crashes') or []) + (r.get('bounded') or []) +
                                ([r.get('error')] if r.get('error') else []) + ['loop contract of %s not re-established' % k[0] for k in r.get('restarts') or []])[:400]
            print('BOUNDED %s: %s %s' % (n, st, why))
        for n in undecided:
            print('UNDECIDED %s: no counter-model replays on the real code' % n)
        obl = sum(r['obligations'] for n, r in syms.items() if n in proved)
        dis = sum(r['discharged'] for n, r in syms.items() if n in proved)
        solver = round(sum(r.get('solver_time', 0) for r in syms.values()), 2)
        backends = {b: sum(o.get(b, 0) for r in syms.values() for o in (r.get('obls') or {}).values()) for b in ('trivial', 'z3', 'cvc5')}
        evals = sum(r['cases'] for r in conc.values())
        level = 'proof' if proved and not [b for b in bounded if b[2] is not None] and not violations else 'exploration'
        ev = dict(property=prop, tier=tier, seed=seed, level=level, wall_s=round(time.time() - t0, 1),
                  violations=len(violations),
                  assumptions=TRUSTED + sorted({'bounded: %s: %s' % (n, st) for n, st, r in bounded}),
                  coverage=dict(
                      obligations=obl, discharged=dis,
                      checker_cmd='python3-vt engine/worker.py UNIT BUDGET OUT.json (one unit per process; see check.py)',
                      trusted_base=TRUSTED,
                      proved_units=sorted(proved), bounded_units=[dict(unit=n, status=st) for n, st, r in sorted(bounded, key=lambda b: b[0])],
                      functions_under_contract=sorted({t for u in units if u.name in proved for t in (syms[u.name].get('functions') or [])}),
                      units={n: dict(status=r['status'], obligations=r['obligations'], discharged=r['discharged'],
                                     paths=r.get('paths'), solver_s=r.get('solver_time'), wall_s=r.get('wall'),
                                     loop_contracts=r.get('loops'), restarts=r.get('restarts'),
                                     per_obligation={k: [o['n'], o['discharged']] for k, o in (r.get('obls') or {}).items()},
                                     notes=(r.get('unsupported') or [])[:3] + (r.get('bounded') or [])[:3] + ([r['error']] if r.get('error') else []))
                             for n, r in syms.items()},
                      backends=backends, solver_s=solver,
                      evaluations=evals, distinct_nontrivial=sum(r['distinct'] for r in conc.values()),
                      rule='every unit is also run on random concrete inputs under the interpreter of the repository; a case counts '
                           'when its inputs satisfy the preconditions, are new and at least one check was evaluated',
                      samples=[dict(unit=n, values=r['sample']) for n, r in sorted(conc.items()) if r.get('sample')][:4],
                      explanation='proved units: every obligation discharged for all inputs; bounded units: the same contracts '
                                  'evaluated on generated inputs only',
                  ))
        with open(os.path.join(evdir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: %d unit(s), %d proved, obligations %d/%d, %d concrete cases, %.1fs' % (
            prop, tier, len(units), len(proved), dis, obl, evals, time.time() - t0))
        for k, (n, v) in sorted(known.items()):
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, v['check'] + ' ' + str(v['values'])[:200]))
        for unit, check, path, suffix in violations:
            print('VIOLATION property=%s replay=%s%s' % (prop, path, suffix))
        sys.stdout.flush()
        if violations:
            return 1
        if nothing or (crashed and len(crashed) == len(conc) and conc):
            return 2
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
