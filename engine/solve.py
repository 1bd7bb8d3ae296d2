"""Decide goals: polynomial normal forms, elimination of linear hypotheses, then z3."""
import math, time
from fractions import Fraction
import z3
import terms as T
import dd as D
from dd import Node, Poly, UNDEF
from interp import eq_leaf, le_leaf, close

class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unsat = self.sat = self.unknown = 0
        self.normal = 0
        self.linear = 0
        self.confirm = 0
        self.goals = 0
    def dict(self):
        return dict(self.__dict__)

STATS = Stats()
TIMEOUT = 20000

def rat(f):
    return z3.RealVal(str(Fraction(f)))

class Encoder:
    """Polynomials over atoms -> z3 reals with the facts known about the atoms."""
    def __init__(self, defs=False):
        self.defs = defs
        self.vars = {}
        self.facts = []
        self.atoms = []
        self.pows = {}

    def atom(self, a):
        v = self.vars.get(a.id)
        if v is not None:
            return v
        v = z3.Real('a%d' % a.id)
        self.vars[a.id] = v
        self.atoms.append(a)
        F = self.facts
        if math.isfinite(a.lo):
            F.append(v >= rat(a.lo))
        if math.isfinite(a.hi):
            F.append(v <= rat(a.hi))
        k = a.kind
        if k == 'inv':
            q = self.poly(a.args[0])
            F.append(q * v == 1)
        elif k == 'def':
            if self.defs:
                F.append(v == self.poly(a.args[0]))
        elif k == 'rnd':
            q = self.poly(a.args[0])
            e = q * z3.RealVal(str(T.UNIT))
            F.append(z3.If(q >= 0, z3.And(v >= q - e, v <= q + e), z3.And(v <= q - e, v >= q + e)))
        elif k == 'sqrt':
            F.append(v >= 0)
            F.append(v * v == self.poly(a.args[0]))
        elif k in ('sin', 'cos'):
            o = T.atom('cos' if k == 'sin' else 'sin', 'cos' if k == 'sin' else 'sin', a.args, -1.0, 1.0)
            w = self.vars.get(o.id)
            if w is None:
                w = z3.Real('a%d' % o.id)
                self.vars[o.id] = w
                self.atoms.append(o)
            F.append(v * v + w * w == 1)
        elif k == 'exp':
            g = self.poly(a.args[0])
            F.append(v > 0)
            F.append(v >= g + 1)
            F.append(z3.Implies(g > 0, v > 1))
            F.append(z3.Implies(g < 0, v < 1))
            F.append(z3.Implies(g == 0, v == 1))
            F.append(z3.Implies(g < 1, v * (1 - g) <= 1))
            for b in self.atoms[:-1]:
                if b.kind == 'exp' and b is not a:
                    h = self.poly(b.args[0])
                    F.append(z3.And(z3.Implies(g < h, v < self.vars[b.id]), z3.Implies(g > h, v > self.vars[b.id]),
                                    z3.Implies(g == h, v == self.vars[b.id])))
        elif k == 'ln':
            g = self.poly(a.args[0])
            F.append(g > 0)
            F.append(v <= g - 1)
            F.append(v * g >= g - 1)
            F.append(z3.Implies(g == 1, v == 0))
            F.append(z3.Implies(g > 1, v > 0))
            F.append(z3.Implies(g < 1, v < 0))
            F.append(z3.Implies(g > 1, v < g - 1))
            F.append(z3.Implies(g > 1, v * g > g - 1))
            for b in self.atoms:
                if b.kind == 'ln' and b is not a:
                    h, w = self.poly(b.args[0]), self.vars[b.id]
                    F.append(h * (v - w) <= g - h)
                    F.append(g * (v - w) >= g - h)
                    F.append(z3.Implies(g > h, z3.And(v > w, h * (v - w) < g - h, g * (v - w) > g - h)))
                    F.append(z3.Implies(g < h, z3.And(v < w, h * (v - w) < g - h, g * (v - w) > g - h)))
            self.scaled_logs(a)
        elif k == 'uf':
            args = [self.poly(x) for x in a.args]
            for b in self.atoms:
                if b.kind == 'uf' and b.name == a.name and b is not a and len(b.args) == len(a.args):
                    bs = [self.poly(x) for x in b.args]
                    F.append(z3.Implies(z3.And([x == y for x, y in zip(args, bs)]), v == self.vars[b.id]))
        return v

    def scaled_logs(self, a):
        """ln(x) against ln(K y) = ln K + ln y for every constant K whose logarithm occurs"""
        logs = [b for b in self.atoms if b.kind == 'ln']
        if len(logs) > 8:
            return
        const = [b for b in logs if T.is_const(b.args[0])]
        other = [b for b in logs if not T.is_const(b.args[0])]
        for k in const:
            K = z3.RealVal(str(Fraction(T.const_value(k.args[0]))))
            for x in other:
                for y in other:
                    if x is not y and a in (k, x, y):
                        g, h = self.poly(x.args[0]), K * self.poly(y.args[0])
                        d = self.vars[x.id] - self.vars[y.id] - self.vars[k.id]
                        self.facts.append(z3.And(z3.Implies(g > h, d > 0), z3.Implies(g < h, d < 0), z3.Implies(g == h, d == 0)))

    def power(self, a, e):
        if e == 1:
            return self.atom(a)
        k = (a.id, e)
        r = self.pows.get(k)
        if r is None:
            if e < 0:
                b = z3.Real('a%d_inv' % a.id) if (a.id, -1) not in self.pows else self.pows[(a.id, -1)]
                if (a.id, -1) not in self.pows:
                    self.pows[(a.id, -1)] = b
                    v = self.atom(a)
                    self.facts.append(b * v == 1)
                    if a.lo > 0:
                        self.facts.append(b > 0)
                r = b
                for _ in range(-e - 1):
                    r = r * b
            else:
                b = self.atom(a)
                r = b
                for _ in range(e - 1):
                    r = r * b
            self.pows[k] = r
        return r

    def poly(self, p):
        ts = []
        for m, c in p.t.items():
            t = None
            for i, e in m:
                f = self.power(T.ATOMS[i], e)
                t = f if t is None else t * f
            c = Fraction(c)
            if t is None:
                t = z3.RealVal(str(c))
            elif c != 1:
                t = z3.RealVal(str(c)) * t
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)

def sign_constraint(x, ss):
    ss = set(ss)
    if ss == {-1}: return x < 0
    if ss == {0}: return x == 0
    if ss == {1}: return x > 0
    if ss == {-1, 0}: return x <= 0
    if ss == {0, 1}: return x >= 0
    if ss == {-1, 1}: return x != 0
    return z3.BoolVal(True)

def z3_check(cs, timeout=None, once=False):
    """(result, model)"""
    t = time.time()
    to = timeout or TIMEOUT
    STATS.queries += 1
    res, model = z3.unknown, None
    for mk in (lambda: z3.Solver(), lambda: z3.Tactic('qfnra-nlsat').solver(), lambda: z3.SolverFor('QF_NRA')):
        try:
            s = mk()
            s.set('timeout', int(to))
            s.add(cs)
            res = s.check()
            if res == z3.sat:
                model = s.model()
            if res != z3.unknown or once:
                break
        except z3.Z3Exception:
            res = z3.unknown
    STATS.time += time.time() - t
    if res == z3.unsat:
        STATS.unsat += 1
    elif res == z3.sat:
        STATS.sat += 1
    else:
        STATS.unknown += 1
    return res, model

_cube_cache = {}
def cube_query(cube, hyps=(), extra=None, timeout=None):
    """Satisfiability of a cube of sign conditions under linear hypotheses (a list of polynomials = 0)."""
    key = (tuple(cube), tuple(h.id for h in hyps))
    if extra is None and key in _cube_cache:
        return _cube_cache[key]
    if extra is None:
        e = Linear()
        if linear_unsat([sign_constraint(e.poly(D.PREDS[v]), ss) for v, ss in cube], 1000):
            _cube_cache[key] = (z3.unsat, None, None)
            return _cube_cache[key]
    for defs in (False, True):
        e = Encoder(defs)
        cs = [sign_constraint(e.poly(D.PREDS[v]), ss) for v, ss in cube]
        for h in hyps:
            cs.append(e.poly(h) == 0)
        if extra is not None:
            cs += extra(e)
        res, model = z3_check(cs + e.facts, timeout)
        if res == z3.unsat or not any(a.kind == 'def' for a in e.atoms):
            break
    out = (res, e, model)
    if extra is None:
        _cube_cache[key] = (res, e, None)
    return out

def interval_refute(cube):
    """Cheap refutation: two predicates that are multiples of each other etc. are left to z3; check intervals only."""
    for v, ss in cube:
        lo, hi = T.interval(D.PREDS[v])
        if lo > 0 and 1 not in ss or hi < 0 and -1 not in ss or lo >= 0 and set(ss) == {-1} or hi <= 0 and set(ss) == {1}:
            return True
    return False

def zval(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(x):
        x = x.approx(30)
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    return 0.0

def model_of(e, m):
    """(variables, function tables) of a z3 model"""
    vs, table = {}, []
    for a in e.atoms:
        if a.kind == 'var':
            vs[a.name] = zval(m, e.vars[a.id])
    for a in e.atoms:
        if a.kind == 'uf':
            table.append((a.name, a, zval(m, e.vars[a.id])))
    return vs, table

# ---------------------------------------------------------------- linear hypotheses
def split_linear(p):
    """({la atom id: coefficient poly}, rest) or None when p is not linear in the la atoms"""
    co, rest = {}, {}
    for m, c in p.t.items():
        hit = None
        for i, e in m:
            if T.ATOMS[i].kind == 'la':
                if hit is not None or e != 1:
                    return None
                hit = i
        if hit is None:
            rest[m] = c
        else:
            co.setdefault(hit, {})[tuple(x for x in m if x[0] != hit)] = c
    return {i: T.poly(d) for i, d in co.items()}, T.poly(rest)

_elim = {}
def eliminate(rows):
    """Substitution {atom id: (coefs, rest)} solving the rows (polynomials = 0) for pivots; remaining rows"""
    key = tuple(r.id for r in rows)
    r = _elim.get(key)
    if r is not None:
        return r
    todo = []
    for p in rows:
        s = split_linear(T.clear(p)[0])
        if s is not None and s[0]:
            todo.append(s)
    subst = []          # ordered (atom, coefs, rest): atom = sum coefs + rest
    def apply(s):
        co, rest = s
        for a, c2, r2 in subst:
            k = co.pop(a, None)
            if k is not None:
                for j, c in c2.items():
                    n = T.add(co.get(j, T.ZERO), T.mul(k, c))
                    if n.t:
                        co[j] = n
                    else:
                        co.pop(j, None)
                rest = T.add(rest, T.mul(k, r2))
        return co, rest
    while todo:
        best = None
        for n, (co, rest) in enumerate(todo):
            for a, c in co.items():
                if T.is_zero(c):
                    continue
                cost = (len(c.t) > 1, len(co), len(c.t), len(rest.t))
                if best is None or cost < best[0]:
                    best = (cost, n, a)
        if best is None:
            break
        _, n, a = best
        co, rest = todo.pop(n)
        piv = co[a]
        inv = T.recip(T.neg(piv))
        c2 = {j: T.mul(c, inv) for j, c in co.items() if j != a}
        r2 = T.mul(rest, inv)
        # keep the substitutions solved: apply the new one to the earlier ones
        new = []
        for b, c3, r3 in subst:
            k = c3.get(a)
            if k is not None:
                c3 = dict(c3)
                del c3[a]
                for j, c in c2.items():
                    x = T.add(c3.get(j, T.ZERO), T.mul(k, c))
                    if x.t:
                        c3[j] = x
                    else:
                        c3.pop(j, None)
                r3 = T.add(r3, T.mul(k, r2))
            new.append((b, c3, r3))
        subst = new + [(a, c2, r2)]
        out = []
        for co3, rest3 in todo:
            k = co3.get(a)
            if k is not None:
                co3 = dict(co3)
                del co3[a]
                for j, c in c2.items():
                    x = T.add(co3.get(j, T.ZERO), T.mul(k, c))
                    if x.t and not T.is_zero(x):
                        co3[j] = x
                    else:
                        co3.pop(j, None)
                rest3 = T.add(rest3, T.mul(k, r2))
            if co3:
                out.append((co3, rest3))
        todo = out
    r = {a: (c, rr) for a, c, rr in subst}
    _elim[key] = r
    return r

def reduce(p, rows):
    s = split_linear(p)
    if s is None:
        return p
    co, rest = s
    sub = eliminate(rows)
    out = rest
    for a, c in co.items():
        if a in sub:
            c2, r2 = sub[a]
            out = T.add(out, T.mul(c, r2))
            for j, cj in c2.items():
                out = T.add(out, T.mul(c, T.mul(cj, T.of_atom(T.ATOMS[j]))))
        else:
            out = T.add(out, T.mul(c, T.of_atom(T.ATOMS[a])))
    return out

def row_polys(hyps):
    """Leaf function arguments: flat list of entries; builder gives the row polynomials"""
    flat, shape = [], []
    for A, b, x in hyps:
        n = len(b)
        for i in range(n):
            shape.append([(len(flat) + j, x[j]) for j in range(n)] + [(len(flat) + n, None)])
            flat += [A[i + j * n] for j in range(n)] + [b[i]]
    return flat, shape

def build_rows(shape, vals):
    rows = []
    for r in shape:
        p = T.ZERO
        for k, x in r:
            v = vals[k]
            if v is UNDEF or (type(v) is float and not math.isfinite(v)):
                p = None
                break
            v = D.P(v)
            p = T.sub(p, v) if x is None else T.add(p, T.mul(v, x))
        if p is not None and p.t:
            rows.append(p)
    return rows

def la_atoms(v):
    out = set()
    for p in (D.leaves(v) if type(v) is Node else [v]):
        if type(p) is Poly:
            out |= {a.id for a in T.atoms_of(p).values() if a.kind == 'la'}
    return out

def relevant(hyps, vals):
    """The systems whose solutions occur in the terms"""
    seen = set()
    for v in vals:
        seen |= la_atoms(v)
    out = []
    todo = list(hyps)
    while True:
        hit = [h for h in todo if any(la_atoms(x) & seen for x in h[2])]
        if not hit:
            return [h for h in hyps if any(h is o for o in out)]
        out += hit
        todo = [h for h in todo if not any(h is o for o in hit)]
        for A, b, x in hit:
            for v in A + b:
                seen |= la_atoms(v)

def eq_under(hyps, a, b):
    """Leaf function deciding a == b under the linear hypotheses"""
    hyps = relevant(hyps, (a, b))
    flat, shape = row_polys(hyps)
    def f(a, b, *vals):
        r = eq_leaf(a, b)
        if type(r) is int:
            return r
        d = T.sub(D.P(a), D.P(b))
        rows = build_rows(shape, vals)
        d2 = reduce(d, rows)
        if T.is_zero(d2):
            STATS.linear += 1
            return 1
        return r
    return f, flat

class TooBig(Exception):
    pass

class Linear:
    """Every monomial is a variable of its own"""
    def __init__(self):
        self.vars = {}
        self.facts = []
    def poly(self, p):
        ts = []
        for m, c in p.t.items():
            c = z3.RealVal(str(Fraction(c)))
            if m:
                v = self.vars.get(m)
                if v is None:
                    v = self.vars[m] = z3.Real('m%d' % len(self.vars))
                c = c * v
            ts.append(c)
        return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)

class Formula:
    """Decision diagrams as z3 terms, without the simplifications that decided them"""
    def __init__(self, linear, limit=3000):
        self.e = Linear() if linear else Encoder(True)
        self.memo = {}
        self.left = limit

    def spend(self, n):
        self.left -= n
        if self.left < 0:
            raise TooBig()

    def pred(self, v):
        k = ('p', v)
        r = self.memo.get(k)
        if r is None:
            p = D.PREDS[v]
            self.spend(1 + len(p.t))
            r = self.memo[k] = self.e.poly(p)
        return r

    def bool(self, c):
        if type(c) is not Node:
            return z3.BoolVal(bool(c) if type(c) is int else False)
        k = ('b', c.id)
        r = self.memo.get(k)
        if r is None:
            self.spend(3)
            p = self.pred(c.v)
            n, z, q = self.bool(c.n), self.bool(c.z), self.bool(c.p)
            r = self.memo[k] = z3.If(p < 0, n, z3.If(p > 0, q, z))
        return r

    def real(self, v):
        if type(v) is Node:
            k = ('r', v.id)
            r = self.memo.get(k)
            if r is None:
                self.spend(3)
                p = self.pred(v.v)
                n, z, q = self.real(v.n), self.real(v.z), self.real(v.p)
                r = self.memo[k] = z3.If(p < 0, n, z3.If(p > 0, q, z))
            return r
        if type(v) is Poly:
            self.spend(len(v.t))
            return self.e.poly(v)
        if type(v) is float and math.isfinite(v):
            return rat(v)
        raise TooBig()

def linear_refute(c, timeout=5000):
    """Whether the linear abstraction (every monomial a variable of its own) of a condition is unsatisfiable"""
    if type(c) is not Node:
        return False
    try:
        f = Formula(True, 20000)
        g = f.bool(c)
    except TooBig:
        return False
    return linear_unsat([g], timeout)

def linear_unsat(cs, timeout):
    t = time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout))
    s.add(cs)
    r = s.check() == z3.unsat
    if r:
        STATS.queries += 1
        STATS.unsat += 1
    STATS.time += time.time() - t
    return r

def confirm(pc, ok, a, b, hyps, timeout=1500):
    """The solver's verdict on the negation of a goal that the rewriting engine decided; None when not posed"""
    r = None
    for linear in (True, False):
        try:
            f = Formula(linear)
            cs = [f.bool(pc)] if type(pc) is Node else []
            if a is not None and b is not None and (type(a) in (Poly, Node) or type(b) in (Poly, Node)):
                if linear and hyps:
                    continue
                cs.append(f.real(a) != f.real(b))
                for A, rhs, x in relevant(hyps, (a, b)) if hyps else ():
                    for i in range(len(rhs)):
                        cs.append(z3.Sum([f.real(A[i + j * len(rhs)]) * f.real(x[j]) for j in range(len(rhs)) if A[i + j * len(rhs)] != 0.0])
                                  == f.real(rhs[i]))
            elif type(ok) is Node:
                cs.append(z3.Not(f.bool(ok)))
            else:
                return None
        except TooBig:
            return r
        if linear:
            # an answer other than unsat means nothing here
            if linear_unsat(cs, timeout):
                return 'unsat'
        else:
            STATS.confirm += 1
            r, _ = z3_check(cs + f.e.facts, timeout, True)
            r = str(r)
    return r
