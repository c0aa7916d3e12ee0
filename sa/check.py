"""Obligation bookkeeping: proved / agreed / violated / undecided."""
import itertools
import json
import os
import signal
import sys
import time
import traceback
from . import terms as T, arrays as A, evalp
from .terms import Poly, Undecided, lift
from .arrays import Arr, ProgError
from . import interp as IP

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEBUG = bool(os.environ.get('SA_DEBUG'))
START = time.time()


def _alarm(*_):
    raise Undecided('time limit of this obligation')


def arm(limit, again=15):
    """obligations that take longer than `limit` seconds are left undecided"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, again)


def disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)


class Missing(Exception):
    """An analysed entity is gone."""


# Helpers that a refactoring may legitimately inline or rename; the behaviour is
# also analysed through the entry points that use them, so losing one of them
# leaves its own obligations undecided instead of breaking the analysis.
INTERNAL = {
    'get_jacobi_precond', 'jacobi_preconditioner', 'assign_ones_bc', 'assign_zeros_bc', 'copy_bc', 'row_elimination',
    'apply_bc_vec', 'apply_bc', 'get_A_fn', 'get_flatten_fn', 'aug_dof_w_bc', 'aug_dof_w_zero_bc',
    'linear_guess_solve', 'linear_incremental_solver', 'linear_guess_solve_lm', 'linear_incremental_solver_lm',
    'compute_residual_lm', 'get_A_fn_and_res_aug', 'solver_row_elimination', 'solver_lagrange_multiplier',
}


class Soft(Undecided):
    pass


class Gone(IP.Model):
    """Stands for an entity that is no longer there; fails when used."""

    def __init__(self, exc):
        self.exc = exc

    def attr(self, I, name):
        raise self.exc

    def call(self, I, args, kw):
        raise self.exc


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.proved = []
        self.agreed = []
        self.viol = []
        self.undec = []
        self.facts = {}
        self.functions = set()
        self.samples = []
        self.interps = []
        self.missing = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- analysis helpers
    def interp(self):
        I = IP.Interp()
        self.interps.append(I)
        return I

    def fn(self, I, mod, name, strict=False):
        """Resolve an analysed entity by dotted name inside a module."""
        try:
            return self._fn(I, mod, name)
        except (Missing, Soft) as e:
            if strict:
                raise
            return Gone(e)

    def _fn(self, I, mod, name):
        try:
            o = I.get(mod, name.split('.')[0])
        except (KeyError, ProgError, FileNotFoundError):
            raise self.gone(mod, name)
        for p in name.split('.')[1:]:
            m = o.lookup(p) if isinstance(o, IP.ClassV) else None
            if m is None:
                raise self.gone(mod, name)
            o = m
        return o

    def gone(self, mod, name):
        if name in INTERNAL or name.split('.')[-1].startswith('_') and not name.endswith('__'):
            return Soft('%s.%s is gone' % (mod, name))
        return Missing('%s.%s' % (mod, name))

    def where(self, f):
        if isinstance(f, str):
            return f
        if isinstance(f, Gone):
            return str(f.exc)
        if isinstance(f, IP.BoundV):
            f = f.func
        if isinstance(f, IP.FuncV):
            return '%s (%s)' % (f.where(), f.qual())
        if isinstance(f, IP.ClassV):
            return '%s (%s)' % (f.module.relpath, f.name)
        return str(f)

    # -- obligations
    def ob(self, name, thunk, where=''):
        """Run thunk(); exceptions become verdicts for this obligation.

        thunk returns True (holds), or a string (violation text), or None
        when it recorded its own verdicts."""
        w = self.where(where)
        try:
            r = thunk()
        except Missing as e:
            self.missing.append(str(e))
            return None
        except Undecided as e:
            if DEBUG:
                traceback.print_exc()
            self.undec.append((name, w, str(e)))
            return None
        except ProgError as e:
            if DEBUG:
                traceback.print_exc()
            if not getattr(e, 'trace', None) and str(e).startswith('TypeError'):
                self.undec.append((name, w, 'interface changed: %s' % e))
                return None
            self.viol.append((name, self._loc(w, e), 'definite run-time error: %s' % e))
            return False
        except RecursionError:
            self.undec.append((name, w, 'term depth'))
            return None
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:      # the analysis does not cover this construct
            if DEBUG:
                traceback.print_exc()
            self.undec.append((name, w, 'analysis: %s: %s' % (type(e).__name__, e)))
            return None
        if r is True:
            self.proved.append((name, w))
            return True
        if isinstance(r, str):
            self.viol.append((name, w, r))
            return False
        return r

    def _loc(self, w, e):
        tr = getattr(e, 'trace', None)
        if tr:
            t = ' -> '.join('%s:%s(%s)' % (r, l, f) for r, f, l in tr[-4:])
            return '%s, at %s' % (w, t) if w else t
        return w

    def eq(self, name, got, want, where='', fixed=None, shape=True, limit=1500, trials=None):
        """Obligation: the denotation of `got` is `want` (for all sizes, values, indices)."""
        w = self.where(where)

        def go():
            g = got() if callable(got) and not isinstance(got, Arr) else got
            try:
                ww = want() if callable(want) and not isinstance(want, Arr) else want
            except ProgError as e:
                raise Undecided('specification: %s' % e)
            return compare(g, ww, self.seed, fixed, shape, limit, trials or (10 if self.thorough else 5))
        try:
            v, how, detail = go()
        except Missing as e:
            self.missing.append(str(e))
            return None
        except Undecided as e:
            if DEBUG:
                traceback.print_exc()
            self.undec.append((name, w, str(e)))
            return None
        except ProgError as e:
            if DEBUG:
                traceback.print_exc()
            if not getattr(e, 'trace', None) and str(e).startswith('TypeError'):
                self.undec.append((name, w, 'interface changed: %s' % e))
                return None
            self.viol.append((name, self._loc(w, e), 'definite run-time error: %s' % e))
            return False
        except RecursionError:
            self.undec.append((name, w, 'term depth'))
            return None
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            if DEBUG:
                traceback.print_exc()
            self.undec.append((name, w, 'analysis: %s: %s' % (type(e).__name__, e)))
            return None
        if v is True:
            (self.proved if how == 'nf' else self.agreed).append((name, w))
            if len(self.samples) < 4 and detail:
                self.samples.append({'obligation': name, 'where': w, 'denotation': detail[:300]})
        elif v is False:
            self.viol.append((name, w, detail))
        else:
            self.undec.append((name, w, detail))
        return v

    def map(self, f, items, workers=None):
        """f(item) for every item, in forked workers; verdicts are merged in order."""
        items = list(items)
        nw = min(workers or min(8, os.cpu_count() or 1), len(items))
        limit = 1200 if self.thorough else 200
        if nw <= 1 or os.environ.get('SA_SERIAL'):
            for x in items:
                arm(limit)
                try:
                    f(x)
                except Undecided as e:
                    self.undec.append(('case %s' % (x,), '', str(e)))
                finally:
                    disarm()
            return
        stop = START + (6000 if self.thorough else 700)
        sys.stdout.flush()
        pending = list(range(len(items)))
        results = {}
        running = {}
        import select

        def spawn(i):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    self.proved, self.agreed, self.viol, self.undec = [], [], [], []
                    self.samples, self.interps, self.missing, self.facts = [], [], [], {}
                    try:
                        arm(limit)
                        f(items[i])
                        disarm()
                    except Missing as e:
                        self.missing.append(str(e))
                    except Exception as e:
                        if DEBUG:
                            traceback.print_exc()
                        self.undec.append(('case %s' % (items[i],), '', 'analysis: %s: %s' % (type(e).__name__, e)))
                    disarm()
                    funcs = set()
                    for I in self.interps:
                        funcs |= set(I.functions_seen)
                    data = json.dumps(dict(proved=self.proved, agreed=self.agreed, viol=self.viol, undec=self.undec,
                                           samples=self.samples, missing=self.missing, facts=self.facts,
                                           funcs=sorted(funcs)), default=str).encode()
                    with os.fdopen(w, 'wb') as fh:
                        fh.write(data)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            running[r] = (i, pid, b'')
        while pending or running:
            while pending and len(running) < nw:
                spawn(pending.pop(0))
            ready, _, _ = select.select(list(running), [], [], 5)
            if time.time() > stop:
                pending.clear()
                for r, (i, pid, buf) in running.items():
                    os.kill(pid, signal.SIGKILL)
                    os.close(r)
                    os.waitpid(pid, 0)
                break
            for r in ready:
                i, pid, buf = running[r]
                chunk = os.read(r, 1 << 20)
                if chunk:
                    running[r] = (i, pid, buf + chunk)
                    continue
                os.close(r)
                del running[r]
                os.waitpid(pid, 0)
                results[i] = buf
        for i in range(len(items)):
            try:
                d = json.loads(results.get(i, b''))
            except ValueError:
                self.undec.append(('case %s' % (items[i],), '', 'worker died'))
                continue
            for k in ('proved', 'agreed', 'viol', 'undec'):
                getattr(self, k).extend(tuple(x) for x in d[k])
            self.missing += d['missing']
            if len(self.samples) < 4:
                self.samples += d['samples'][:4 - len(self.samples)]
            for k, v in d['facts'].items():
                if isinstance(v, int):
                    self.facts[k] = self.facts.get(k, 0) + v
                else:
                    self.facts.setdefault(k, v)
            self.functions |= set(tuple(x) for x in d['funcs'])

    def holds(self, name, cond, text, where=''):
        return self.ob(name, lambda: True if (cond() if callable(cond) else cond) else text, where)


def _layers(d):
    """index pieces that jointly cover a size"""
    return A.pieces(d)


def as_p(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, Poly):
        return A.scal(x)
    return A.asarr(x)


def compare(g, w, seed=1, fixed=None, shape=True, limit=1500, trials=6):
    """-> (True/False/None, 'nf'|'pit', text)"""
    if isinstance(w, (list, tuple)) or isinstance(w, dict) or w is None or isinstance(w, (str, bool)):
        return compare_tree(g, w, seed, fixed, shape, limit, trials)
    g, w = as_p(g), as_p(w)
    if len(g.shape) != len(w.shape):
        return False, 'nf', 'rank %d, expected %d (shape %s vs %s)' % (
            len(g.shape), len(w.shape), g.shape, w.shape)
    agreed = False
    if shape:
        for k, (a, b) in enumerate(zip(g.shape, w.shape)):
            if a.p is b.p:
                continue
            v, det = evalp.same(a.p, b.p, trials, seed, fixed)
            if v is False:
                return False, 'nf', 'axis %d has length %s, expected %s' % (k, a, b)
            if v is None:
                return None, '', 'length %s vs %s' % (a, b)
            agreed = True
    axes = []
    for a, b in zip(g.shape, w.shape):
        d = b if b.parts or not a.parts else a
        axes.append(d)
    combos = 1
    pcs = []
    for d in axes:
        p = _layers(d)
        pcs.append(p)
        combos *= max(1, len(p))
    if combos > limit:
        pcs = [[(lambda v: (v, [(v, d.p)]))(T.fresh_var(d.p))] if len(p) > 8 else p
               for d, p in zip(axes, pcs)]
    first = None
    n = 0
    secs = 3.0
    for combo in itertools.product(*pcs):
        idx = tuple(i for i, _ in combo)
        binders = [b for _, bs in combo for b in bs]
        a, b = lift(g.get(idx)), lift(w.get(idx))
        n += 1
        if first is None:
            first = T.show(a)
        if a is b:
            continue
        t0 = time.time()
        v, det = evalp.same_all(a, b, binders, trials, seed, fixed, secs=min(1.0, secs / 3))
        secs = max(0.05, secs - (time.time() - t0))
        if v is False and IP.loop_marks(a) - IP.loop_marks(b):
            return None, '', 'state of a loop that is not summarised: %s' % T.show(a)[:200]
        if v is False:
            return False, 'pit', 'at index %s: got %s   expected %s   (e.g. %s)' % (
                [T.show(i) for i in idx], T.show(a)[:700], T.show(b)[:700], det)
        if v is None:
            return None, '', 'cannot separate %s and %s: %s' % (T.show(a)[:200], T.show(b)[:200], det)
        agreed = True
    return True, ('pit' if agreed else 'nf'), first


def compare_tree(g, w, *rest):
    if isinstance(w, (list, tuple)):
        if isinstance(g, Arr) and g.shape and g.shape[0].c() is not None:
            g = [A.getitem(g, T.const(i)) for i in range(g.shape[0].c())]
        if not isinstance(g, (list, tuple)) or len(g) != len(w):
            return False, 'nf', 'structure %s, expected %s' % (str(g)[:100], str(w)[:100])
        how, first = 'nf', None
        for k, (x, y) in enumerate(zip(g, w)):
            v, h, d = compare(x, y, *rest)
            if v is not True:
                return v, h, 'item %d: %s' % (k, d)
            first = first or d
            if h == 'pit':
                how = 'pit'
        return True, how, first
    if isinstance(w, dict):
        if not isinstance(g, dict) or set(g) != set(w):
            return False, 'nf', 'keys %s, expected %s' % (sorted(map(str, g)) if isinstance(g, dict) else g,
                                                        sorted(map(str, w)))
        for k in w:
            v, h, d = compare(g[k], w[k], *rest)
            if v is not True:
                return v, h, '[%r]: %s' % (k, d)
        return True, 'nf', None
    if g is w or (type(g) is type(w) and g == w):
        return True, 'nf', str(w)
    return False, 'nf', '%r, expected %r' % (g, w)
