"""Symbolic reals: Laurent polynomials over atoms with exact rational coefficients.

An atom is an input variable, an application of an unknown function, or one of
sin, cos, sqrt, exp, ln, inv (reciprocal of a polynomial with several terms), pi.
"""
import math
from fractions import Fraction

INF = math.inf

class Atom:
    __slots__ = ('id', 'kind', 'name', 'args', 'lo', 'hi')

class Poly:
    __slots__ = ('t', 'id', 'iv')
    def __repr__(self):
        return show(self)

ATOMS = []
_atom_key = {}
_poly_key = {}
POLYS = []

def norm(c):
    if type(c) is int:
        return c
    d = c.denominator
    if d == 1:
        return c.numerator
    n = c.numerator
    if n.bit_length() + d.bit_length() > (240 if PLAIN else 600):
        # long chains of products of machine numbers: 90 or 160 bits are far beyond their own rounding
        e = n.bit_length() - d.bit_length() - (90 if PLAIN else 160)
        q = (n << -e) // d if e < 0 else n // (d << e)
        c = Fraction(q << e) if e >= 0 else Fraction(q, 1 << -e)
        if c.denominator == 1:
            return c.numerator
    return c

def poly(d):
    """Intern a monomial -> coefficient dictionary (no zero coefficients)."""
    k = frozenset(d.items())
    p = _poly_key.get(k)
    if p is None:
        p = Poly()
        p.t = d
        p.id = len(POLYS)
        p.iv = None
        POLYS.append(p)
        _poly_key[k] = p
    return p

ZERO = poly({})
ONE = poly({(): 1})

def const(c):
    return poly({(): norm(c)}) if c else ZERO

def is_const(p):
    t = p.t
    return not t or (len(t) == 1 and () in t)

def const_value(p):
    return p.t.get((), 0)

def atom(kind, name, args, lo=-INF, hi=INF):
    k = (kind, name, args)
    a = _atom_key.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.name, a.args, a.lo, a.hi = kind, name, args, lo, hi
        ATOMS.append(a)
        _atom_key[k] = a
    return a

def of_atom(a, e=1):
    return poly({((a.id, e),): 1})

def var(name, lo, hi):
    return of_atom(atom('var', name, (), lo, hi))

def uf(name, args, lo, hi):
    return of_atom(atom('uf', name, tuple(args), lo, hi))

PI = atom('pi', 'pi', (), math.pi * (1 - 1e-16), math.pi * (1 + 1e-16))

# ---------------------------------------------------------------- rounding
ROUND = None        # the input whose arithmetic is rounded
UNIT = Fraction(1, 1 << 53)
def rounded(p):
    """p with an arbitrary relative rounding error when it is a term over the rounded input only"""
    hit = False
    for m in p.t:
        for i, e in m:
            a = ATOMS[i]
            if i == ROUND or a.kind == 'rnd':
                hit = True
            elif a.kind != 'uf' or a.args:
                return p
    if not hit:
        return p
    c, m, q = primitive(p)
    if m == next(iter(p.t)) and len(p.t) == 1 and len(m) == 1 and c == 1 and m[0][1] == 1:
        return p
    P = scale(q, c)
    lo, hi = interval(P)
    a = atom('rnd', 'rnd', (P, p), 1e-300 if lo > 0 else -INF, -1e-300 if hi < 0 else INF)
    return mul(mono_poly(m), of_atom(a))

# ---------------------------------------------------------------- canonical arguments
_canon = {}
_canon_bucket = {}
def canon(p):
    """A fixed representative of the polynomials equal to p as rational functions (arguments of functions)."""
    r = _canon.get(p.id)
    if r is not None:
        return r
    r = p
    if not is_const(p):
        import sample
        v = sample.fingerprint(p)
        if v == v and abs(v) != INF:
            k = '%.7e' % v
            ks = {k, '%.7e' % (v * (1 + 3e-9)), '%.7e' % (v * (1 - 3e-9))}
            for kk in ks:
                for q in _canon_bucket.get(kk, ()):
                    if q is p or is_zero(sub(p, q)):
                        r = q
                        break
                if r is not p:
                    break
            if r is p:
                _canon_bucket.setdefault(k, []).append(p)
    _canon[p.id] = r
    return r

# ---------------------------------------------------------------- monomials
_mm = {}
def monomul(a, b):
    """Product of two monomials: a monomial, or a Poly when an atom relation applies."""
    if not a:
        return b
    if not b:
        return a
    k = (a, b) if a <= b else (b, a)
    r = _mm.get(k)
    if r is None:
        d = dict(a)
        special = False
        for i, e in b:
            n = d.get(i, 0) + e
            if n == 0:
                d.pop(i, None)
            else:
                d[i] = n
                kind = ATOMS[i].kind
                if kind in ('sqrt', 'cos') and not (n == 1):
                    special = True
        m = tuple(sorted(d.items()))
        if special:
            rest, out = [], ONE
            for i, e in m:
                kd = ATOMS[i].kind
                if kd == 'sqrt' and e != 1:
                    arg = ATOMS[i].args[0]
                    q, rem = e // 2, e % 2
                    f = powi(arg, q)
                    if rem:
                        f = mul(f, of_atom(ATOMS[i]))
                    out = mul(out, f)
                elif kd == 'cos' and e >= 2:
                    s = of_atom(atom('sin', 'sin', ATOMS[i].args, -1.0, 1.0))
                    f = powi(sub(ONE, mul(s, s)), e // 2)
                    if e % 2:
                        f = mul(f, of_atom(ATOMS[i]))
                    out = mul(out, f)
                else:
                    rest.append((i, e))
            r = mul(poly({tuple(rest): 1}), out)
        else:
            r = m
        _mm[k] = r
    return r

def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    d = dict(a.t)
    for m, c in b.t.items():
        o = d.get(m)
        if o is None:
            d[m] = c
        else:
            n = o + c
            if n == 0 or (type(n) is not int and abs(float(n)) < 1e-13 * abs(float(c))):
                del d[m]
            else:
                d[m] = norm(n)
    return poly(d)

def neg(a):
    return poly({m: -c for m, c in a.t.items()})

def sub(a, b):
    return add(a, neg(b))

def scale(a, c):
    if not c:
        return ZERO
    if c == 1:
        return a
    return poly({m: norm(v * c) for m, v in a.t.items()})

# Products with more terms than this keep their factors as abbreviations ('def' atoms), 0: never
WRAP = 0
_defs = {}
def abbreviate(p):
    r = _defs.get(p.id)
    if r is None:
        c, m, q = primitive(p)
        q = canon(q)
        lo, hi = interval(q)
        r = mul(mono_poly(m, c), of_atom(atom('def', 'def', (q,), lo, hi)))
        _defs[p.id] = r
    return r

_unf = {}
def unfold(p):
    """p without abbreviations"""
    global WRAP
    r = _unf.get(p.id)
    if r is not None:
        return r
    w, WRAP = WRAP, 0
    try:
        q = p
        while True:
            best = -1
            for m in q.t:
                for i, e in m:
                    if i > best and ATOMS[i].kind == 'def':
                        best = i
            if best < 0:
                break
            out = ZERO
            for m, c in q.t.items():
                e = 0
                rest = []
                for i, x in m:
                    if i == best:
                        e = x
                    else:
                        rest.append((i, x))
                f = mono_poly(tuple(rest), c)
                out = add(out, mul(f, powi(ATOMS[best].args[0], e)) if e else f)
            q = out
    finally:
        WRAP = w
    _unf[p.id] = q
    return q

def has_defs(p):
    for m in p.t:
        for i, e in m:
            if ATOMS[i].kind == 'def':
                return True
    return False

_mulc = {}
def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulc.get(k)
    if r is not None and not WRAP:
        return r
    if WRAP and len(a.t) > 1 and len(b.t) > 1 and len(a.t) * len(b.t) > WRAP:
        return mul(abbreviate(a) if len(a.t) >= len(b.t) or len(a.t) > 4 else a, abbreviate(b) if len(b.t) > len(a.t) or len(b.t) > 4 else b)
    if r is not None:
        return r
    d = {}
    extra = None
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = monomul(m1, m2)
            c = c1 * c2
            if type(m) is tuple:
                o = d.get(m)
                if o is None:
                    d[m] = norm(c)
                else:
                    n = o + c
                    if n == 0 or (type(n) is not int and abs(float(n)) < 1e-13 * abs(float(c))):
                        del d[m]
                    else:
                        d[m] = norm(n)
            else:
                p = scale(m, c)
                extra = p if extra is None else add(extra, p)
    r = poly(d)
    if extra is not None:
        r = add(r, extra)
    _mulc[k] = r
    return r

def powi(a, n):
    if n < 0:
        return powi(recip(a), -n)
    r = ONE
    while n:
        if n & 1:
            r = mul(r, a)
        n >>= 1
        if n:
            a = mul(a, a)
    return r

# ---------------------------------------------------------------- primitive part, division
_prim = {}
def primitive(p):
    """(c, m, q): p = c * m * q, q with leading coefficient 1 and no common monomial."""
    r = _prim.get(p.id)
    if r is not None:
        return r
    cand = set()
    for m in p.t:
        for i, e in m:
            cand.add(i)
    common = {i: None for i in cand}
    for m in p.t:
        d = dict(m)
        for i in cand:
            e = d.get(i, 0)
            if common[i] is None or e < common[i]:
                common[i] = e
    common = {i: e for i, e in common.items() if e}
    cm = tuple(sorted(common.items()))
    inv = tuple((i, -e) for i, e in cm)
    d = {}
    for m, c in p.t.items():
        x = dict(m)
        for i, e in inv:
            n = x.get(i, 0) + e
            if n:
                x[i] = n
            else:
                x.pop(i, None)
        d[tuple(sorted(x.items()))] = c
    lead = max(d)
    c = d[lead]
    q = poly({m: norm(Fraction(v) / c) for m, v in d.items()})
    r = (c, cm, q)
    _prim[p.id] = r
    return r

def mono_poly(m, c=1):
    """Polynomial of a monomial whose atoms may need the sqrt/cos relations."""
    r = const(c)
    for i, e in m:
        a = ATOMS[i]
        if a.kind in ('sqrt', 'cos'):
            r = mul(r, powi(of_atom(a), e) if e > 0 else powi(recip_atom(a), -e))
        else:
            r = mul(r, poly({((i, e),): 1}))
    return r

def recip_atom(a):
    if a.kind == 'sqrt':
        return mul(of_atom(a), recip(a.args[0]))
    if a.kind == 'inv':
        return a.args[0]
    if a.kind == 'cos':
        return of_atom(atom('inv', 'inv', (of_atom(a),)))
    return poly({((a.id, -1),): 1})

def recip(p):
    c, m, q = primitive(p)
    r = const(Fraction(1) / c)
    for i, e in m:
        a = ATOMS[i]
        if e > 0:
            r = mul(r, powi(recip_atom(a), e))
        else:
            r = mul(r, powi(of_atom(a), -e))
    if q is not ONE:
        if WRAP and len(q.t) > 60:
            return mul(r, powi(abbreviate(q), -1))
        if any(ATOMS[i].kind == 'inv' for mm in q.t for i, e in mm):
            # put everything over a common denominator first
            qq, dens = clear(q)
            for d, e in dens:
                r = mul(r, powi(d, e))
            return mul(r, recip(qq))
        q2 = canon(q)
        lo, hi = interval(q)
        if lo > 0 or hi < 0:
            l2, h2 = sorted((1 / lo, 1 / hi))
        else:
            l2, h2 = -INF, INF
        r = mul(r, of_atom(atom('inv', 'inv', (q2,), l2, h2)))
    return r

def div(a, b):
    """a / b for b not identically zero (the caller handles b == 0)."""
    if not a.t:
        return ZERO
    if is_const(b):
        return scale(a, Fraction(1) / const_value(b))
    ca, ma, qa = primitive(a)
    cb, mb, qb = primitive(b)
    if qa is qb:
        r = mul(mono_poly(ma, Fraction(ca) / cb), recip(mono_poly(mb)))
        return r
    return mul(a, recip(b))

# ---------------------------------------------------------------- intervals
def _imul(a, b):
    lo1, hi1 = a
    lo2, hi2 = b
    vs = []
    for x in (lo1, hi1):
        for y in (lo2, hi2):
            v = x * y
            if v != v:
                v = 0.0
            vs.append(v)
    return min(vs), max(vs)

def _ipow(iv, e):
    lo, hi = iv
    if e < 0:
        if lo > 0 or hi < 0:
            iv = (1 / hi if hi != INF and hi != -INF else 0.0, 1 / lo if lo not in (INF, -INF) else 0.0)
            lo, hi = min(iv), max(iv)
        elif lo == 0:
            lo, hi = (1 / hi if hi not in (INF, 0) else 0.0), INF
        elif hi == 0:
            lo, hi = -INF, (1 / lo if lo != -INF else 0.0)
        else:
            lo, hi = -INF, INF
        e = -e
    def pw(x):
        try:
            return x ** e
        except OverflowError:
            return INF if (x > 0 or e % 2 == 0) else -INF
    if e % 2 == 0:
        m = max(abs(lo), abs(hi))
        n = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
        return pw(n), pw(m)
    return pw(lo), pw(hi)

def interval(p):
    iv = p.iv
    if iv is None:
        lo = hi = 0.0
        sl = sh = True
        for m, c in p.t.items():
            try:
                f = float(c)
            except OverflowError:
                f = INF if c > 0 else -INF
            v = (f, f)
            for i, e in m:
                a = ATOMS[i]
                v = _imul(v, _ipow((a.lo, a.hi), e))
            lo += v[0]
            hi += v[1]
            if not v[0] >= 0:
                sl = False
            if not v[1] <= 0:
                sh = False
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        pad = 1e-12 * max(abs(lo) if abs(lo) != INF else 0, abs(hi) if abs(hi) != INF else 0)
        if len(p.t) > 1:
            lo, hi = lo - pad, hi + pad
            if sl and lo < 0:
                lo = 0.0
            if sh and hi > 0:
                hi = 0.0
            # a sum of non-negative terms, one of them positive
            if sl and lo <= 0:
                for m, c in p.t.items():
                    l = interval(poly({m: c}))[0]
                    if l > 0:
                        lo = l * (1 - 1e-12)
                        break
            if sh and hi >= 0:
                for m, c in p.t.items():
                    h = interval(poly({m: c}))[1]
                    if h < 0:
                        hi = h * (1 - 1e-12)
                        break
        iv = p.iv = (lo, hi)
    return iv

# ---------------------------------------------------------------- rational constants
_rat = {}
def rationalise(x):
    """Poly of a finite float: the decimal or simple fraction it was written as, or a multiple of pi."""
    p = _rat.get(x)
    if p is not None:
        return p
    p = _rationalise(x)
    _rat[x] = p
    return p

PLAIN = False        # machine numbers are taken as they are
def _rationalise(x):
    if PLAIN:
        return const(Fraction(x))
    if x == int(x) and abs(x) < 1e15:
        return const(int(x))
    r = repr(abs(x))
    digits = r.split('e')[0].replace('.', '').strip('0')
    if len(digits) <= 13:
        return const(Fraction(repr(x)))
    ulp = math.ulp(x)
    if 1e-6 < abs(x) < 1e6:
        f = Fraction(x).limit_denominator(2000)
        if f and abs(Fraction(x) - f) <= 2 * Fraction(ulp):
            return const(f)
    for k, sc in ((1, math.pi), (2, math.pi ** 2), (-1, 1 / math.pi)):
        y = x / sc
        if 1e-6 < abs(y) < 1e8:
            tol = 4 * math.ulp(y)
            f = Fraction(y).limit_denominator(5000)
            if abs(float(f) - y) <= tol:
                return poly({((PI.id, k),): norm(f)})
            d = Fraction(repr(float('%.11g' % y)))
            if abs(float(d) - y) <= tol:
                return poly({((PI.id, k),): norm(d)})
    return const(Fraction(x))

def to_float(c):
    try:
        return float(c)
    except OverflowError:
        return INF if c > 0 else -INF

# ---------------------------------------------------------------- functions
def _sqrt_frac(c):
    """(outside, inside): c = outside^2 * inside"""
    c = Fraction(c)
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    on, od = 1, 1
    if rn * rn == n:
        on, n = rn, 1
    if rd * rd == d:
        od, d = rd, 1
    return Fraction(on, od), Fraction(n, d)

def sqrt(p):
    if not p.t:
        return ZERO
    c, m, q = primitive(p)
    out = ONE
    if c < 0:
        c, q = -c, neg(q)
    oc, ic = _sqrt_frac(c)
    out = const(oc)
    inside = scale(q, ic)
    rest = []
    for i, e in m:
        a = ATOMS[i]
        if a.lo >= 0:
            h = e // 2 if e >= 0 else -((-e) // 2)
            if h:
                out = mul(out, powi(of_atom(a), h) if h > 0 else powi(recip_atom(a), -h))
            if e - 2 * h:
                rest.append((i, e - 2 * h))
        else:
            rest.append((i, e))
    inside = mul(inside, mono_poly(tuple(rest)))
    if inside is ONE:
        return out
    inside = canon(inside)
    lo, hi = interval(inside)
    lo = math.sqrt(lo) if lo > 0 else 0.0
    hi = math.sqrt(hi) if hi > 0 else (0.0 if hi <= 0 else INF)
    return mul(out, of_atom(atom('sqrt', 'sqrt', (inside,), lo, max(hi, lo))))

def _sign_lead(p):
    return p.t[max(p.t)]

def exp(p):
    if not p.t:
        return ONE
    p = canon(p)
    if _sign_lead(p) < 0:
        return recip_atom(_exp_atom(neg(p)))
    return of_atom(_exp_atom(p))

def _exp_atom(p):
    p = canon(p)
    lo, hi = interval(p)
    def e(x):
        return 0.0 if x < -700 else (INF if x > 700 else math.exp(x))
    return atom('exp', 'exp', (p,), e(lo) * (1 - 1e-12), e(hi) * (1 + 1e-12))

def _ln_atom(p):
    if p is ONE:
        return ZERO
    p = canon(p)
    lo, hi = interval(p)
    l = math.log(lo) if lo > 0 else -INF
    h = (math.log(hi) if hi > 0 else -INF) if hi != INF else INF
    pad = 1e-12 * max(1.0, abs(l) if l != -INF else 0, abs(h) if h != INF else 0)
    return of_atom(atom('ln', 'ln', (p,), l - pad, h + pad))

def ln(p):
    """Natural logarithm of a positive value."""
    p = canon(p)
    c, m, q = primitive(p)
    factors = []
    sign = 1 if c > 0 else -1
    c = abs(c)
    ok = True
    def part(b, e):
        """the factor b^e, as a power of a positive value"""
        nonlocal sign, ok
        lo, hi = interval(b)
        if hi < 0:
            b = neg(b)
            if e % 2:
                sign = -sign
        elif lo <= 0:
            ok = False
        factors.append((b, e))
    def parts(m):
        for i, e in m:
            a = ATOMS[i]
            if a.kind == 'inv':
                part(a.args[0], -e)
            elif a.kind == 'exp':
                factors.append((None, e, a.args[0]))
            else:
                part(of_atom(a), e)
    parts(m)
    if q is not ONE:
        # pull reciprocals out of the multi-term factor
        qq, dens = clear(q)
        c2, m2, q2 = primitive(qq)
        if c2 < 0:
            sign = -sign
        c = c * abs(c2)
        parts(m2)
        for d, e in dens:
            part(d, -e)
        if q2 is not ONE:
            part(q2, 1)
    ok = ok and sign > 0
    if not ok:
        inv = recip(p)
        lo = _ln_key(p)
        if _ln_key(inv) < lo:
            return neg(_ln_atom(inv))
        return _ln_atom(p)
    r = ZERO
    for f in factors:
        if f[0] is None:
            r = add(r, scale(f[2], f[1]))
        else:
            r = add(r, scale(_ln_atom(f[0]), f[1]))
    if c != 1:
        c = Fraction(c)
        if c.numerator != 1:
            r = add(r, _ln_atom(const(c.numerator)))
        if c.denominator != 1:
            r = sub(r, _ln_atom(const(c.denominator)))
    return r

def _ln_key(p):
    return (len(p.t), sorted(p.t))

def _angle(mono, c):
    """(sin, cos) of c * mono for one term of an angle"""
    pm = ((PI.id, 1),)
    if mono == pm:
        c = Fraction(c) % 2
        if c * 2 % 1 == 0:
            k = int(c * 2)
            return [(ZERO, ONE), (ONE, ZERO), (ZERO, neg(ONE)), (neg(ONE), ZERO)][k]
        # reduce to (0, 1/2)
        k = int(c * 2)
        r = c - Fraction(k, 2)
        s, co = _sc(poly({mono: norm(r)}))
        return [(s, co), (co, neg(s)), (neg(s), neg(co)), (neg(co), s)][k]
    if c < 0:
        s, co = _sc(poly({mono: norm(-c)}))
        return neg(s), co
    return _sc(poly({mono: norm(c)}))

def _sc(p):
    s = atom('sin', 'sin', (p,), -1.0, 1.0)
    c = atom('cos', 'cos', (p,), -1.0, 1.0)
    return of_atom(s), of_atom(c)

def sincos(p):
    p = canon(p)
    s, c = ZERO, ONE
    for m in sorted(p.t):
        s2, c2 = _angle(m, p.t[m])
        s, c = add(mul(s, c2), mul(c, s2)), sub(mul(c, c2), mul(s, s2))
    return s, c

def sin(p):
    return sincos(p)[0]

def cos(p):
    return sincos(p)[1]

# ---------------------------------------------------------------- zero test
_clear = {}
def clear(p):
    """(q, dens): p = q / prod(d^e), q without inv atoms."""
    r = _clear.get(p.id)
    if r is not None:
        return r
    dens = []
    q = p
    while True:
        best = -1
        for m in q.t:
            for i, e in m:
                if i > best and ATOMS[i].kind == 'inv':
                    best = i
        if best < 0:
            break
        d = ATOMS[best].args[0]
        by = {}
        top = 0
        for m, c in q.t.items():
            e = 0
            rest = []
            for i, x in m:
                if i == best:
                    e = x
                else:
                    rest.append((i, x))
            by.setdefault(e, {})[tuple(rest)] = c
            top = max(top, e)
        out = ZERO
        for e, d2 in by.items():
            out = add(out, mul(poly(d2), powi(d, top - e)))
        q = out
        if top:
            dens.append((d, top))
        if not q.t:
            break
    r = (q, dens)
    _clear[p.id] = r
    return r

def exact_div(p, d):
    """p / d when d divides p, for polynomials without negative powers; None otherwise"""
    def key(m):
        return tuple(sorted(m, reverse=True))
    if not d.t or len(d.t) > 40 or len(p.t) > 600:
        return None
    for q in (p, d):
        for m in q.t:
            for _, e in m:
                if e < 0:
                    return None
    lead = max(d.t, key=key)
    lc = Fraction(d.t[lead])
    rest = [(m, c) for m, c in d.t.items() if m != lead]
    need = dict(lead)
    left = dict(p.t)
    out = {}
    while left:
        m = max(left, key=key)
        x = dict(m)
        for i, e in need.items():
            n = x.get(i, 0) - e
            if n < 0:
                return None
            if n:
                x[i] = n
            else:
                x.pop(i, None)
        f = tuple(sorted(x.items()))
        c = Fraction(left.pop(m)) / lc
        out[f] = norm(c)
        for m2, c2 in rest:
            y = dict(f)
            for i, e in m2:
                y[i] = y.get(i, 0) + e
            g = tuple(sorted(y.items()))
            v = left.get(g, 0) - c * c2
            if v:
                left[g] = v
            else:
                left.pop(g, None)
        if len(out) > 600 or len(left) > 2000:
            return None
    return poly(out)

def magnitude(p, env):
    """(value, sum of the sizes of the terms)"""
    s = t = 0.0
    for m, c in p.t.items():
        v = evaluate(poly({m: c}), env)
        s += v
        t += abs(v)
    return s, t

_mp = None
def magnitude_mp(p, env):
    """magnitude with 80 digits"""
    global _mp
    if _mp is None:
        import mpmath
        _mp = mpmath.mp
        _mp.dps = 80
    cache = env.__dict__.setdefault('mp', {})
    mpf = _mp.mpf
    def ev(p):
        s, t = mpf(0), mpf(0)
        for m, c in p.t.items():
            c = Fraction(c)
            v = mpf(c.numerator) / c.denominator
            for i, e in m:
                v *= at(ATOMS[i]) ** e
            s += v
            t += abs(v)
        return s, t
    def at(a):
        v = cache.get(a.id)
        if v is None:
            k = a.kind
            if k in ('var', 'uf', 'la'):
                v = mpf(eval_atom(a, env))
            elif k == 'pi':
                v = +_mp.pi
            else:
                g = ev(a.args[0])[0]
                v = {'sin': _mp.sin, 'cos': _mp.cos, 'sqrt': _mp.sqrt, 'exp': _mp.exp, 'ln': _mp.log, 'inv': lambda z: 1 / z, 'def': lambda z: z, 'rnd': lambda z: z}[k](g)
            cache[a.id] = v
        return v
    try:
        s, t = ev(p)
        if _mp.isnan(s) or isinstance(s, _mp.mpc):
            return 0, 0
        return s, t
    except (ZeroDivisionError, ValueError, OverflowError, TypeError):
        return 0, 0

_zero = {}
def is_zero(p):
    if not p.t:
        return True
    q = clear(p)[0]
    if not q.t:
        return True
    if not has_defs(q):
        return False
    r = _zero.get(q.id)
    if r is None:
        import sample
        r = False
        for e in sample._fps[:2]:
            v, t = magnitude(q, e)
            if abs(v) > 1e-6 * t:
                break
            v, t = magnitude_mp(q, e)
            if t > 0 and abs(v) > 1e-40 * t:
                break
        else:
            u = unfold(q)
            global WRAP
            w, WRAP = WRAP, 0
            try:
                r = is_zero(u)
            finally:
                WRAP = w
        _zero[q.id] = r
    return r

# ---------------------------------------------------------------- derivative
_der = {}
def deriv(p, x):
    """dp/dx for the variable atom x"""
    k = (p.id, x.id)
    r = _der.get(k)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.t.items():
        for n, (i, e) in enumerate(m):
            da = _datom(ATOMS[i], x)
            if not da.t:
                continue
            rest = m[:n] + (((i, e - 1),) if e != 1 else ()) + m[n + 1:]
            out = add(out, mul(mono_poly(rest, c * e), da))
    _der[k] = out
    return out

def _datom(a, x):
    if a is x:
        return ONE
    if a.kind in ('var', 'pi', 'la'):
        return ZERO
    if a.kind == 'uf':
        out = ZERO
        for n, g in enumerate(a.args):
            d = deriv(g, x)
            if d.t:
                out = add(out, mul(d, uf('D%d.%s' % (n, a.name), a.args, -INF, INF)))
        return out
    g = a.args[0]
    d = deriv(g, x)
    if not d.t:
        return ZERO
    if a.kind == 'sin':
        return mul(d, cos(g))
    if a.kind == 'cos':
        return neg(mul(d, sin(g)))
    if a.kind == 'sqrt':
        return mul(scale(d, Fraction(1, 2)), recip_atom(a))
    if a.kind == 'exp':
        return mul(d, of_atom(a))
    if a.kind == 'ln':
        return div(d, g)
    if a.kind == 'inv':
        return neg(mul(d, powi(of_atom(a), 2)))
    if a.kind == 'def':
        return d
    raise NotImplementedError(a.kind)

# ---------------------------------------------------------------- evaluation, printing
def evaluate(p, env):
    """Float value; env: atom id -> float (cache, filled in), env.leaf(atom) -> float for var/uf"""
    s = 0.0
    for m, c in p.t.items():
        v = to_float(c)
        for i, e in m:
            b = eval_atom(ATOMS[i], env)
            try:
                v *= b ** e
            except ZeroDivisionError:
                v = math.nan
            except OverflowError:
                v = math.inf
        s += v
    return s

def eval_atom(a, env):
    v = env.cache.get(a.id)
    if v is not None:
        return v
    k = a.kind
    if k == 'var' or k == 'uf' or k == 'la':
        v = env.leaf(a)
    elif k == 'pi':
        v = math.pi
    else:
        g = evaluate(a.args[0], env)
        try:
            v = {'sin': math.sin, 'cos': math.cos, 'sqrt': math.sqrt, 'exp': math.exp, 'ln': math.log,
                 'inv': lambda z: 1 / z, 'def': lambda z: z, 'rnd': lambda z: z}[k](g)
        except (ValueError, ZeroDivisionError):
            v = math.nan
        except OverflowError:
            v = math.inf
    env.cache[a.id] = v
    return v

def show_atom(a):
    if a.kind in ('var', 'pi', 'la'):
        return a.name
    return '%s(%s)' % (a.name, ', '.join(show(x) for x in a.args))

def show(p, limit=20):
    if not p.t:
        return '0'
    out = []
    for m, c in list(sorted(p.t.items()))[:limit]:
        f = [str(c)] if c != 1 or not m else []
        f += [show_atom(ATOMS[i]) + ('^%d' % e if e != 1 else '') for i, e in m]
        out.append('*'.join(f))
    if len(p.t) > limit:
        out.append('... %d terms' % len(p.t))
    return ' + '.join(out)

def atoms_of(p, seen=None):
    """All atoms below p, arguments included."""
    if seen is None:
        seen = {}
    for m in p.t:
        for i, e in m:
            if i not in seen:
                a = ATOMS[i]
                seen[i] = a
                for g in a.args:
                    atoms_of(g, seen)
    return seen
