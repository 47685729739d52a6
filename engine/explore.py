"""Path exploration of a unit, obligations, results."""
import gc
import importlib
import pickle
import select
import subprocess
import tempfile
import os
import signal
import time
import traceback
import z3

from . import sym, rt
from .sym import Unsupported, PathEnd, EngineTimeout


class Refuted(Exception):
    pass


class Run(object):
    """All paths of one unit. Every alternative of a decision is explored by a forked process, which sends its results
    back through a pipe."""

    def __init__(self, unit, budget=120.0, max_forks=3000, unroll=3):
        self.unit = unit
        self.deadline = time.time() + budget
        self.feas_rlimit = 3000000
        self.obl_rlimit = 20000000
        self.cvc5_ms = 8000
        self.max_forks = max_forks
        self.unroll = unroll
        self.disabled = set()
        self.no_contracts = False
        self.restarts = []
        self.fd = None
        self.children = []
        self.tokens = tokens()
        self.reset()

    def reset(self):
        self.d = dict(bounded=[], loops_cut=set(), obls={}, refutations=[], unsupported=[], crashes=[], paths=0, ended=0,
                      reached=set(), solver_calls=0, solver_time=0.0, feas_time=0.0, slowest=0.0, timed_out=False, restart=None)

    # -- processes
    def fork(self):
        """True in the process that explores the alternative"""
        self.tick()
        if len(self.d['refutations']) >= 12:
            return False
        self.reap(False)
        parallel = self.tokens is not None and self.take_token()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for _, fd, _ in self.children:
                os.close(fd)
            if self.fd is not None:
                os.close(self.fd)
            self.fd, self.children = w, []
            self.has_token = parallel
            self.reset()
            self.arm()
            return True
        os.close(w)
        self.children.append((pid, r, parallel))
        if not parallel:
            self.collect(len(self.children) - 1)
        return False

    def arm(self):
        """interrupts a path that computes past the deadline without asking for decisions"""
        def late(*a):
            signal.setitimer(signal.ITIMER_REAL, 3)
            raise EngineTimeout()
        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, max(0.1, self.deadline - time.time() + 3))

    def take_token(self):
        try:
            return bool(os.read(self.tokens[0], 1))
        except BlockingIOError:
            return False

    def collect(self, i):
        pid, fd, parallel = self.children.pop(i)
        data = []
        while True:
            b = os.read(fd, 1 << 16)
            if not b:
                break
            data.append(b)
        os.close(fd)
        os.waitpid(pid, 0)
        try:
            d = pickle.loads(b''.join(data))
        except Exception:
            d = None
        if parallel and (d is None):
            os.write(self.tokens[1], b'x')
        if d is None:
            self.d['unsupported'].append('a path process ended without a result')
            return
        self.merge(d)
        if self.d['restart']:
            raise rt.Restart(*self.d['restart'])

    def reap(self, all_):
        i = 0
        while i < len(self.children):
            if all_ or select.select([self.children[i][1]], [], [], 0)[0]:
                self.collect(i)
            else:
                i += 1

    def merge(self, d):
        m = self.d
        for k in ('bounded', 'unsupported', 'crashes'):
            for x in d[k]:
                if x not in m[k]:
                    m[k].append(x)
        m['refutations'].extend(d['refutations'])
        for k in ('loops_cut', 'reached'):
            m[k] |= d[k]
        for k in ('paths', 'ended', 'solver_calls', 'solver_time'):
            m[k] += d[k]
        for n, o in d['obls'].items():
            t = m['obls'].setdefault(n, dict.fromkeys(o, 0))
            for k in o:
                t[k] += o[k]
        m['feas_time'] += d['feas_time']
        m['slowest'] = max(m['slowest'], d['slowest'])
        m['timed_out'] |= d['timed_out']
        m['restart'] = m['restart'] or d['restart']

    def send(self):
        """end of a child"""
        data = pickle.dumps(self.d)
        if getattr(self, 'has_token', False):
            os.write(self.tokens[1], b'x')
        off = 0
        while off < len(data):
            off += os.write(self.fd, data[off:off + 65536])
        os.close(self.fd)
        os._exit(0)

    # -- services for Path
    def tick(self):
        if time.time() > self.deadline:
            raise EngineTimeout()

    def mark_bounded(self, why):
        if why not in self.d['bounded']:
            self.d['bounded'].append(why)

    @property
    def loops_cut(self):
        return self.d['loops_cut']

    @property
    def reached(self):
        return self.d['reached']

    @property
    def solver_calls(self):
        return self.d['solver_calls']

    @solver_calls.setter
    def solver_calls(self, v):
        self.d['solver_calls'] = v

    def obligation(self, path, cond, name, internal=False):
        self.tick()
        o = self.d['obls'].setdefault(name, dict(n=0, discharged=0, refuted=0, unknown=0, internal=0, z3=0, cvc5=0,
                                                 trivial=0))
        o['n'] += 1
        o['internal'] += bool(internal)
        c = sym.zb(cond)
        if z3.is_true(c):
            o['discharged'] += 1
            o['trivial'] += 1
            return 'ok'
        self.solver_calls += 1
        t0 = time.time()
        r, backend, model = self.decide(path, z3.Not(c))
        self.d['solver_time'] += time.time() - t0
        if r == 'unsat':
            o['discharged'] += 1
            o[backend] += 1
            path.add(c)
            return 'ok'
        if r == 'sat':
            o['refuted'] += 1
            if not internal:
                self.d['refutations'].append((name, self.counterexample(path, z3.Not(c), model)))
                path.add(c)
            return 'refuted'
        o['unknown'] += 1
        if not internal:
            path.add(c)
        return 'unknown'

    def decide(self, path, neg):
        s = path.solver
        s.push()
        try:
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', 'z3', None
            if r == z3.sat:
                return 'sat', 'z3', s.model()
            asserts = list(s.assertions())
        finally:
            s.pop()
        # a fresh solver preprocesses better than an incremental one
        for mk in (lambda: z3.Solver(), lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver()):
            self.tick()
            f = mk()
            f.set('rlimit', self.obl_rlimit)
            f.set('timeout', 15000)
            f.add(*asserts)
            r = f.check()
            if r == z3.unsat:
                return 'unsat', 'z3', None
            if r == z3.sat:
                return 'sat', 'z3', f.model()
        self.tick()
        f = z3.Solver()
        f.add(*asserts)
        text = '(set-logic ALL)\n' + f.to_smt2()
        d = tempfile.mkdtemp(prefix='verif-')
        fn = os.path.join(d, 'q.smt2')
        try:
            with open(fn, 'w') as h:
                h.write(text)
            out = subprocess.run(['cvc5', '--tlimit=%d' % self.cvc5_ms, fn], stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, timeout=self.cvc5_ms / 1000.0 + 10).stdout.decode()
        except (OSError, subprocess.TimeoutExpired):
            out = ''
        finally:
            if os.path.exists(fn):
                os.unlink(fn)
            os.rmdir(d)
        if out.strip().startswith('unsat'):
            return 'unsat', 'cvc5', None
        return 'unknown', None, None

    def counterexample(self, path, neg, model):
        """prefer small sizes"""
        from . import vsym
        best = model
        for bound in (6, 40):
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*path.solver.assertions())
            s.add(neg)
            for t in vsym.size_terms(rt.S.draws):
                s.add(t <= bound)
            if s.check() == z3.sat:
                best = s.model()
                break
        try:
            return vsym.extract(rt.S.draws, best)
        except Exception as e:
            return {'__error__': repr(e)}

    # -- exploration
    def explore(self):
        while True:
            try:
                self.one()
            except rt.Restart as r:
                self.kill_children()
                self.restarts.append((r.key, r.why))
                self.disabled.add(r.key)
                self.reset()
                continue
            return self.d['timed_out']

    def kill_children(self):
        for pid, fd, parallel in self.children:
            os.close(fd)
            os.waitpid(pid, 0)
        self.children = []

    def infeasible(self, path):
        """no input takes the path (a decision on the way was too hard to rule it out)"""
        try:
            return self.decide(path, z3.BoolVal(True))[0] == 'unsat'
        except z3.Z3Exception:
            return False

    def one(self):
        from . import vsym
        d = lambda: self.d
        p = sym.Path(self)
        rt.reset()
        sym._current[0] = p
        v = vsym.V(p, self)
        restart = None
        try:
            try:
                self.unit.fn(v)
                d()['ended'] += 1
            except PathEnd:
                pass
            except Unsupported as e:
                msg = str(e) + ' @ ' + where(e)
                if msg not in d()['unsupported'] and not self.infeasible(p):
                    d()['unsupported'].append(msg)
            except (rt.Restart, EngineTimeout):
                raise
            except z3.Z3Exception as e:
                d()['unsupported'].append('z3: %s @ %s' % (str(e)[:200], where(e)))
            except Exception as e:
                msg = 'engine: %s: %s @ %s' % (type(e).__name__, str(e)[:200], where(e))
                if not self.infeasible(p):
                    d()['crashes'].append(msg)
            d()['paths'] += 1
            self.reap(True)
        except rt.Restart as r:
            restart = r
            self.d['restart'] = (r.key, r.why)
        except EngineTimeout:
            self.d['timed_out'] = True
            try:
                self.reap(True)
            except rt.Restart as r:
                restart = r
                self.d['restart'] = (r.key, r.why)
        except BaseException as e:
            self.d['crashes'].append('engine: %s: %s' % (type(e).__name__, str(e)[:200]))
        finally:
            sym._current[0] = None
        if self.fd is not None:
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                self.kill_children()
                self.send()
            finally:
                os._exit(1)
        if restart is not None:
            raise restart


def tokens():
    """jobserver pipe of the driver: extra processes while cores are idle"""
    v = os.environ.get('VERIF_TOKENS')
    if not v:
        return None
    r, w = [int(x) for x in v.split(',')]
    return r, w


def where(e):
    tb = e.__traceback__
    frames = traceback.extract_tb(tb)
    out = []
    for f in frames[-40:]:
        if '/infi/instruct/' in f.filename or '/specs/' in f.filename:
            out.append('%s:%d' % (os.path.basename(f.filename), f.lineno))
    f = frames[-1]
    return ' '.join(out[-3:]) + ' (%s:%d)' % (os.path.basename(f.filename), f.lineno)


def verify(unit, budget=None):
    t0 = time.time()
    gc.disable()
    for m in ('infi.instruct', 'infi.instruct.buffer'):     # before the first fork
        try:
            importlib.import_module(m)
        except Exception:
            pass                # the unit meets it itself
    run = Run(unit, budget=budget or unit.budget, unroll=unit.unroll)
    timed_out = run.explore()
    d = run.d
    total = sum(o['n'] for o in d['obls'].values())
    disch = sum(o['discharged'] for o in d['obls'].values())
    posts = sum(o['n'] - o['internal'] for o in d['obls'].values())
    missing = [c for c in unit.must_reach if c not in run.reached]
    if d['refutations']:
        status = 'refuted'
    elif timed_out:
        status = 'timeout'
    elif d['unsupported'] or d['crashes'] or any(o['unknown'] for o in d['obls'].values()):
        status = 'incomplete'
    elif posts == 0 or d['ended'] == 0 or missing:
        status = 'vacuous'
    elif d['bounded'] or unit.bounded:
        status = 'bounded'
    else:
        status = 'proved'
    return dict(unit=unit.name, status=status, feas_time=round(d['feas_time'], 2), slowest=round(d['slowest'], 2), obligations=total, discharged=disch, paths=d['paths'], ended=d['ended'],
                wall=round(time.time() - t0, 2), solver_time=round(d['solver_time'], 2), solver_calls=run.solver_calls,
                obls=d['obls'], refutations=d['refutations'][:8], unsupported=d['unsupported'][:6], crashes=d['crashes'][:6],
                bounded=d['bounded'] + ([unit.bounded] if unit.bounded else []), loops=sorted(run.loops_cut),
                restarts=run.restarts, missing=missing, timed_out=timed_out)
