"""Values of the symbolic executor.

A value is a Python int (any integer type, unsigned), a Python float (a concrete double), a Poly (a
symbolic real), Bits (the bit pattern of a double), a tuple (an aggregate), or a Node: a decision
diagram over the signs of polynomials whose leaves are such values.
"""
import math, struct
import terms as T
from terms import Poly

class Node:
    __slots__ = ('v', 'n', 'z', 'p', 'id')

class Bits:
    """Bit pattern of a double, possibly with the total order key transformation applied."""
    __slots__ = ('x',)
    def __init__(self, x):
        self.x = x

class Undef:
    pass
UNDEF = Undef()

PREDS = []          # polynomial of each decision variable
_pred_key = {}
_node_key = {}
_bits = {}

def bits(x):
    if type(x) is float:
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    b = _bits.get(x.id)
    if b is None:
        b = _bits[x.id] = Bits(x)
    return b

def key(a):
    t = type(a)
    if t is Node:
        return ('N', a.id)
    if t is Poly:
        return ('P', a.id)
    if t is int:
        return a
    if t is float:
        return ('F', struct.pack('<d', a))
    if t is Bits:
        return ('B', a.x.id)
    if t is tuple:
        return ('T',) + tuple(key(x) for x in a)
    return ('O', id(a))

def same(a, b):
    if a is b:
        return True
    t = type(a)
    if t is not type(b):
        return False
    if t is int:
        return a == b
    if t is float or t is tuple:
        return key(a) == key(b)
    return False

def _mk(v, n, z, p):
    """Reduced node; children have variables greater than v."""
    if same(n, z) and same(z, p):
        return n
    k = (v, key(n), key(z), key(p))
    r = _node_key.get(k)
    if r is None:
        r = Node()
        r.v, r.n, r.z, r.p = v, n, z, p
        r.id = len(_node_key)
        _node_key[k] = r
    return r

_sel = {}
def select3(v, n, z, p):
    """n / z / p by the sign of variable v; arbitrary children."""
    w = v
    for c in (n, z, p):
        if type(c) is Node and c.v <= w:
            w = c.v
    if w == v and not any(type(c) is Node and c.v == v for c in (n, z, p)):
        return _mk(v, n, z, p)
    k = (v, key(n), key(z), key(p))
    r = _sel.get(k)
    if r is not None:
        return r
    if w == v:
        r = _mk(v, n.n if type(n) is Node and n.v == v else n,
                z.z if type(z) is Node and z.v == v else z,
                p.p if type(p) is Node and p.v == v else p)
    else:
        def cof(c, b):
            if type(c) is Node and c.v == w:
                return (c.n, c.z, c.p)[b]
            return c
        ch = [select3(v, cof(n, b), cof(z, b), cof(p, b)) for b in range(3)]
        r = _mk(w, *ch)
    _sel[k] = r
    return r

_lift = {}
def lift(f, *args):
    """Apply a leaf operation to decision diagrams."""
    v = -1
    for a in args:
        if type(a) is Node and (v < 0 or a.v < v):
            v = a.v
    if v < 0:
        return f(*args)
    k = (f,) + tuple(key(a) for a in args)
    r = _lift.get(k)
    if r is not None:
        return r
    ch = []
    for b in range(3):
        ch.append(lift(f, *[((a.n, a.z, a.p)[b] if type(a) is Node and a.v == v else a) for a in args]))
    r = select3(v, *ch)
    _lift[k] = r
    return r

def pred(p):
    """(variable, flip) of the sign of a non-constant polynomial."""
    k = _pred_key.get(p.id)
    if k is not None:
        return k
    # drop factors of known sign, make the rest canonical
    c, m, q = T.primitive(p)
    flip = c < 0
    rest = []
    for i, e in m:
        a = T.ATOMS[i]
        if a.lo > 0:
            continue
        if a.hi < 0:
            if e % 2:
                flip = not flip
            continue
        if e % 2:
            rest.append((i, 1))
        else:
            rest.append((i, 2))   # keeps the zero
    q2, dens = T.clear(q)
    for d, e in dens:
        if e % 2:
            lo, hi = T.interval(d)
            if lo > 0:
                pass
            elif hi < 0:
                flip = not flip
            else:
                q2 = T.mul(q2, d)
    c2, m2, q2 = T.primitive(q2)
    if c2 < 0:
        flip = not flip
    for d, e in dens:
        # the same condition multiplied by a denominator
        lo, hi = T.interval(d)
        if lo > 0 or hi < 0:
            d = T.primitive(d)[2]
            if len(d.t) < 2:
                continue
            lo, hi = T.interval(d)
            while lo > 0 or hi < 0:
                r = T.exact_div(q2, d)
                if r is None:
                    break
                q2 = r
                if hi < 0:
                    flip = not flip
    c3, m3, q2 = T.primitive(q2)
    if c3 < 0:
        flip = not flip
    m2 = tuple(m2) + tuple(m3)
    for i, e in m2:
        a = T.ATOMS[i]
        if a.lo > 0:
            continue
        if a.hi < 0:
            if e % 2:
                flip = not flip
            continue
        rest.append((i, 1 if e % 2 else 2))
    canon = T.mul(T.mono_poly(tuple(rest)), q2) if rest else q2
    k2 = _pred_key.get(canon.id)
    if k2 is None:
        k2 = (len(PREDS), False)
        PREDS.append(canon)
        _pred_key[canon.id] = k2
    r = (k2[0], k2[1] != flip)
    _pred_key[p.id] = r
    return r

def sign(p, n, z, pz):
    """n, z or pz by the sign of the polynomial p (leaf values)."""
    if not p.t:
        return z
    lo, hi = T.interval(p)
    if lo > 0:
        return pz
    if hi < 0:
        return n
    if T.is_const(p):
        c = T.const_value(p)
        return pz if c > 0 else n if c < 0 else z
    if T.is_zero(p):
        return z
    v, flip = pred(p)
    if flip:
        n, pz = pz, n
        lo, hi = -hi, -lo
    c = PREDS[v]
    l2, h2 = T.interval(c)
    lo, hi = max(lo, l2) if False else l2, h2
    if lo > 0:
        return pz
    if hi < 0:
        return n
    if lo == 0:
        n = z
    if hi == 0:
        pz = z
    return select3(v, n, z, pz)

# ---------------------------------------------------------------- booleans
def bnot(a):
    return lift(_not, a)
def _not(a):
    return 1 - a

_andc = {}
def band(a, b):
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    if a is b:
        return a
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    r = _andc.get(k)
    if r is None:
        if _left[0] is not None:
            _left[0] -= 1
            if _left[0] < 0:
                raise TooBig
        v = min(a.v, b.v)
        ch = [band((a.n, a.z, a.p)[i] if a.v == v else a, (b.n, b.z, b.p)[i] if b.v == v else b) for i in range(3)]
        r = _andc[k] = _mk(v, *ch)
    return r

def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))

_itec = {}
def ite(c, a, b):
    if type(c) is int:
        return a if c else b
    if same(a, b) or b is UNDEF or c is UNDEF:
        return a
    if a is UNDEF:
        return b
    if type(a) is tuple or type(b) is tuple:
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    k = (c.id, key(a), key(b))
    r = _itec.get(k)
    if r is None:
        v = c.v
        for x in (a, b):
            if type(x) is Node and x.v < v:
                v = x.v
        ch = []
        for i in range(3):
            def cof(x):
                return (x.n, x.z, x.p)[i] if type(x) is Node and x.v == v else x
            ch.append(ite(cof(c), cof(a), cof(b)))
        r = _itec[k] = _mk(v, *ch)
    return r

class TooBig(Exception):
    pass
_left = [None]
_resc = {}
def restrict(x, pc):
    """Simplify x where the condition pc is known to hold."""
    if type(x) is Node and type(pc) is Node and _left[0] is None:
        # x itself is right, too: give up when forgetting conditions makes pc too big
        _left[0] = 3000
        try:
            return restrict(x, pc)
        except TooBig:
            _resc[x.id, pc.id] = x
            return x
        finally:
            _left[0] = None
    if type(x) is not Node:
        if type(x) is tuple:
            return tuple(restrict(y, pc) for y in x)
        return x
    if type(pc) is int:
        return x
    k = (x.id, pc.id)
    r = _resc.get(k)
    if r is None:
        if pc.v < x.v:
            r = restrict(x, bor(bor(pc.n, pc.z), pc.p))
        else:
            cs = (pc.n, pc.z, pc.p) if pc.v == x.v else (pc, pc, pc)
            ch = [None, None, None]
            last = None
            for i, (c, y) in enumerate(zip(cs, (x.n, x.z, x.p))):
                if c != 0 or type(c) is Node:
                    ch[i] = last = restrict(y, c)
            if last is None:
                r = 0
            else:
                # infeasible branches repeat a feasible neighbour
                first = next(c for c in ch if c is not None)
                if ch[0] is None:
                    ch[0] = ch[1] if ch[1] is not None else first
                if ch[1] is None:
                    ch[1] = ch[0]
                if ch[2] is None:
                    ch[2] = ch[1]
                r = _mk(x.v, *ch)
        _resc[k] = r
    return r

def cubes(c, limit=100000):
    """Paths to 1 of a boolean diagram: lists of (variable, sign set) with sign set in -1/0/1."""
    out = []
    def go(x, acc):
        if len(out) >= limit:
            return
        if type(x) is int:
            if x:
                out.append(list(acc))
            return
        done = []
        ch = ((-1, x.n), (0, x.z), (1, x.p))
        for s, y in ch:
            if any(same(y, d) for d in done):
                continue
            done.append(y)
            if type(y) is int and not y:
                continue
            ss = tuple(s2 for s2, y2 in ch if same(y, y2))
            acc.append((x.v, ss))
            go(y, acc)
            acc.pop()
    go(c, [])
    return out

def leaves(x, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if type(x) is Node:
        if x.id not in seen:
            seen.add(x.id)
            for y in (x.n, x.z, x.p):
                leaves(y, out, seen)
    else:
        if not any(same(x, y) for y in out):
            out.append(x)
    return out

# ---------------------------------------------------------------- real arithmetic on leaves
def P(x):
    return x if type(x) is Poly else T.rationalise(x)

def fin(x):
    return type(x) is Poly or math.isfinite(x)

def out(p):
    """Constants that are exact doubles go back to floats."""
    if type(p) is Poly and T.is_const(p):
        c = T.const_value(p)
        f = T.to_float(c)
        if T.rationalise(f) is p if math.isfinite(f) else False:
            return f
    return p

def fadd(a, b):
    if type(a) is float and type(b) is float:
        return a + b
    if not fin(a):
        return a
    if not fin(b):
        return b
    return out(T.add(P(a), P(b)))

def fneg(a):
    if type(a) is float:
        return -a
    return T.neg(a)

def fsub(a, b):
    if type(a) is float and type(b) is float:
        return a - b
    return fadd(a, fneg(b))

def _inf_times(p, inf):
    """inf * p for symbolic p"""
    return sign(p, -inf, math.nan, inf)

def fmul(a, b):
    if type(a) is float and type(b) is float:
        return a * b
    if not fin(a):
        return a if a != a else _inf_times(b, a)
    if not fin(b):
        return b if b != b else _inf_times(a, b)
    return out(T.mul(P(a), P(b)))

def fdiv(a, b):
    if type(a) is float and type(b) is float:
        return cdiv(a, b)
    if not fin(b):
        return b if b != b else 0.0
    if not fin(a):
        if a != a:
            return a
        return sign(P(b), -a, a, a)
    pa, pb = P(a), P(b)
    if not pb.t:
        return sign(pa, -math.inf, math.nan, math.inf)
    q = sign(pb, 1, 0, 1)
    if q == 1 and type(q) is int:
        return out(T.div(pa, pb))
    if q == 0 and type(q) is int:
        return sign(pa, -math.inf, math.nan, math.inf)
    d = out(T.div(pa, pb))
    inf = sign(pa, -math.inf, math.nan, math.inf)
    return sign(pb, d, inf, d)

def cdiv(a, b):
    if b == 0:
        if a != a or a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    try:
        return a / b
    except OverflowError:
        return math.copysign(math.inf, a) * math.copysign(1.0, b)

def fabs(a):
    if type(a) is float:
        return abs(a)
    return sign(a, T.neg(a), 0.0, a)

def fsqrt(a):
    if type(a) is float:
        return math.sqrt(a) if a >= 0 else (a if a == 0 else math.nan)
    r = out(T.sqrt(a))
    return sign(a, math.nan, 0.0, r)

def _c1(f):
    def g(x):
        try:
            return f(x)
        except (ValueError, OverflowError):
            return math.nan
    return g

def fsin(a):
    if type(a) is float:
        return _c1(math.sin)(a)
    return out(T.sin(a))

def fcos(a):
    if type(a) is float:
        return _c1(math.cos)(a)
    return out(T.cos(a))

def fexp(a):
    if type(a) is float:
        try:
            return math.exp(a)
        except OverflowError:
            return math.inf
    return out(T.exp(a))

def fln(a):
    if type(a) is float:
        if a > 0:
            return math.log(a)
        return -math.inf if a == 0 else math.nan
    return sign(a, math.nan, -math.inf, out(T.ln(a)))

def fpowi(a, n):
    n = n - (1 << 32) if n >> 31 else n
    if type(a) is float:
        try:
            return a ** n
        except (ZeroDivisionError, OverflowError):
            return math.inf
    if n < 0:
        return fdiv(1.0, out(T.powi(a, -n)))
    return out(T.powi(a, n))

def fpow(a, b):
    if type(a) is float and type(b) is float:
        try:
            r = a ** b
            return r if type(r) is float else math.nan
        except (ZeroDivisionError, OverflowError):
            return math.inf
    if type(b) is float and b == int(b) and abs(b) < 64:
        return fpowi(a, int(b) & 0xffffffff)
    if type(b) is float and b == 0.5:
        return fsqrt(a)
    raise NotImplementedError('pow')

def ftan(a):
    return lift(fdiv, fsin(a), fcos(a))

def fcmp(op, a, b):
    """op: one of the LLVM predicates"""
    if type(a) is float and type(b) is float:
        if a != a or b != b:
            return 1 if op[0] == 'u' else 0
        o = op[1:]
        if op == 'ord':
            return 1
        if op == 'uno':
            return 0
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[o])
    for x in (a, b):
        if type(x) is float and x != x:
            return 1 if op[0] == 'u' else 0
    if op == 'ord':
        return 1
    if op == 'uno':
        return 0
    o = op[1:]
    lt, eq, gt = {'eq': (0, 1, 0), 'ne': (1, 0, 1), 'lt': (1, 0, 0), 'le': (1, 1, 0), 'gt': (0, 0, 1), 'ge': (0, 1, 1)}[o]
    if not fin(a):
        return gt if a > 0 else lt
    if not fin(b):
        return lt if b > 0 else gt
    return sign(T.sub(P(a), P(b)), lt, eq, gt)
