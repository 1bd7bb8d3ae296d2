"""Concrete inputs for a conjunction of sign conditions the solver found satisfiable.

The solver's own model may not survive the replay: it knows only facts about logarithms, and nothing of linear
systems whose coefficients depend on the path. Starting from the inputs of a seed, a sequence of linear programs
moves inputs and values of unknown functions until every condition holds with a margin; the replay decides."""
import math, time
import numpy as np
from scipy.optimize import linprog
import terms as T
import dd as D
import sample
from dd import Node, Poly

def _atoms(v, out):
    for p in (D.leaves(v) if type(v) is Node else (v,)):
        if type(p) is Poly:
            for a in T.atoms_of(p).values():
                if a.id not in out:
                    out[a.id] = a
                    for x in a.args:
                        _atoms(x, out)
    if type(v) is Node:
        seen = set()
        def go(n):
            if type(n) is Node and n.id not in seen:
                seen.add(n.id)
                _atoms(D.PREDS[n.v], out)
                for y in (n.n, n.z, n.p):
                    go(y)
        go(v)

def _is_deriv(a):
    return a.kind == 'uf' and a.name.startswith('D') and a.name[1:2].isdigit()

class Search:
    def __init__(self, harness, cube):
        self.h = harness
        st = harness.vm.st
        self.st = st
        self.preds = [(D.PREDS[v], set(ss)) for v, ss in cube]
        at = {}
        for p, _ in self.preds:
            _atoms(p, at)
        if any(a.kind == 'la' for a in at.values()):
            for A, b, x in st.hyps:
                for v in list(A) + list(b):
                    _atoms(v, at)
        fresh = set(st.fresh)
        for x in list(st.fresh.values()):
            _atoms(x, at)
        self.free = [a for _, a in sorted(at.items()) if a.kind in ('var', 'uf') and a.name not in fresh and not _is_deriv(a)
                     and math.isfinite(a.lo) and math.isfinite(a.hi) and a.hi > a.lo]
        self.free += [a for _, a in sorted(at.items()) if a.kind == 'la' and not st.hyps]
        self.size = [(a.lo, a.hi) if math.isfinite(a.lo) and math.isfinite(a.hi) else (-3., 7.) for a in self.free]

    def env(self, u):
        e = self.h.path_env(self.seed)
        for a, f, (lo, hi) in zip(self.free, u, self.size):
            e.cache[a.id] = sample.scale(lo, hi, f)
        return e

    def values(self, u):
        e = self.env(u)
        return np.array([T.evaluate(p, e) for p, _ in self.preds])

    def start(self, seed):
        self.seed = seed
        e = self.h.path_env(seed)
        u = []
        for a, (lo, hi) in zip(self.free, self.size):
            v = T.eval_atom(a, e)
            if lo > 0 and hi / lo > 20:
                f = math.log(v / lo) / math.log(hi / lo)
            else:
                f = (v - lo) / (hi - lo)
            u.append(min(max(f, 0.02), 0.98))
        return np.array(u)

    def solve(self, seed, until, rounds=12):
        u = self.start(seed)
        n = len(u)
        p = self.values(u)
        if not np.all(np.isfinite(p)):
            return None
        # the side of a condition that excludes one number
        sign = np.array([(1. if v >= 0 else -1.) if ss == {-1, 1} else 1. if 1 in ss and -1 not in ss else
                         -1. if -1 in ss and 1 not in ss else 0. for v, (_, ss) in zip(p, self.preds)])
        step = 0.5
        for _ in range(rounds):
            if time.time() > until:
                return None
            h = 1e-6
            J = np.zeros((len(p), n))
            for i in range(n):
                w = u.copy()
                d = h if u[i] < 0.5 else -h
                w[i] += d
                J[:, i] = (self.values(w) - p) / d
            if not np.all(np.isfinite(J)):
                return None
            S = np.abs(J).sum(axis=1) + 1e-30
            act = sign != 0
            eq = np.array([ss == {0} for _, ss in self.preds])
            def margin(v):
                m = (sign * v / S)[act]
                q = -np.abs(v[eq] / S[eq])
                return min([1.] + list(m) + list(q))
            cur = margin(p)
            ok = False
            while step > 1e-4:
                # maximise t with sign * (p + J d) >= t S
                A = np.hstack([-(sign[act, None] * J[act]) / S[act, None], np.ones((act.sum(), 1))])
                b = (sign * p / S)[act]
                kw = {}
                if eq.any():
                    kw = {'A_eq': np.hstack([J[eq] / S[eq, None], np.zeros((eq.sum(), 1))]), 'b_eq': -p[eq] / S[eq]}
                bounds = [(max(-step, 1e-3 - x), max(0, min(step, 1 - 1e-3 - x))) for x in u] + [(None, 1.)]
                r = linprog([0.] * n + [-1.], A_ub=A, b_ub=b, bounds=bounds, method='highs', **kw)
                if r.x is None:
                    break
                w = u + r.x[:n]
                q = self.values(w)
                if np.all(np.isfinite(q)) and margin(q) > cur + 1e-9 * abs(cur):
                    better = margin(q) > 0 and margin(q) < 1.2 * cur
                    u, p, ok = w, q, True
                    step = min(0.5, step * 1.5)
                    if better:
                        return u
                    break
                step *= 0.4
            if not ok:
                break
        return u if margin(p) > 0 else None

    def model(self, u):
        vs, tab = {}, []
        e = self.env(u)
        for a in self.free:
            v = e.cache[a.id]
            if a.kind == 'uf':
                tab.append((a.name, [T.evaluate(g, e) for g in a.args], v))
            else:
                vs[a.name] = v
        return self.h.model_text(self.seed, self.st.choices, vs, tab)

def search(harness, name, cubes, seconds):
    """Raises the harness's Violation when a concrete run fails"""
    until = time.time() + seconds
    # the conditions that exclude only a number are violated by almost every input: try the weak ones first
    for seed in (1, 2, 3):
        for cube in cubes:
            if time.time() > until:
                return
            s = Search(harness, cube)
            if not s.free:
                continue
            try:
                u = s.solve(seed, until)
            except (ValueError, OverflowError, ZeroDivisionError, TypeError, AttributeError, np.linalg.LinAlgError):
                continue
            if u is not None:
                harness.confirm_run(name, s.model(u), 'linear programs from seed %d' % seed)
