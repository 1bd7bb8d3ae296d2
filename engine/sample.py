"""The sampler of the native replay, in Python: the value of every input for a seed."""
import math
import terms as T

M64 = (1 << 64) - 1
def mix(z):
    z = (z + 0x9e3779b97f4a7c15) & M64
    z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
    z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
    return z ^ (z >> 31)

_h = {}
def hash_(seed, s, k):
    key = (seed, s, k)
    r = _h.get(key)
    if r is None:
        h = 0xcbf29ce484222325 ^ mix(seed)
        for b in s.encode():
            h = ((h ^ b) * 0x0100000001b3) & M64
        r = _h[key] = (mix(h ^ mix(k)) >> 11) / (1 << 53)
    return r

def scale(lo, hi, f):
    if lo > 0.0 and hi / lo > 20.0:
        return math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * f)
    return lo + (hi - lo) * f

def uf_value(seed, n, args, lo, hi):
    t = 6.0 * hash_(seed, n, 0)
    for i, a in enumerate(args):
        w = 0.2 + 1.3 * hash_(seed, n, 1 + i)
        if a != a:
            return math.nan
        t += w * math.log(1.0 + abs(a)) * math.copysign(1.0, a)
    try:
        return scale(lo, hi, 0.5 + 0.5 * math.sin(t))
    except ValueError:
        return math.nan

class Env:
    """Values of atoms for a seed; a model may fix variables."""
    def __init__(self, seed, fixed=None, table=None, la=None, fresh=None):
        self.seed = seed
        self.cache = {}
        self.fixed = fixed or {}
        self.table = table or {}
        self.la = la
        self.fresh = fresh
    def leaf(self, a):
        if a.kind == 'var':
            if a.name in self.fixed:
                return self.fixed[a.name]
            if self.fresh and a.name in self.fresh:
                return self.fresh[a.name](self)
            return scale(a.lo, a.hi, hash_(self.seed, a.name, 0))
        if a.kind == 'la':
            if a.name in self.fixed:
                return self.fixed[a.name]
            if self.la is None:
                return scale(-3.0, 7.0, hash_(self.seed, a.name, 0))
            return self.la(self, a)
        args = [T.evaluate(g, self) for g in a.args]
        for k, v in self.table.get(a.name, ()):
            if len(k) == len(args) and all(close(x, y) for x, y in zip(k, args)):
                return v
        lo, hi = a.lo, a.hi
        if a.name.startswith('D') and not math.isfinite(lo):
            lo, hi = -1.0, 1.0
        return uf_value(self.seed, a.name, args, lo, hi)
    def choice(self, n, k):
        return min(int(hash_(self.seed, n, 0) * k), k - 1)

def close(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))

_fp = Env(987654321)
_fps = [_fp] + [Env(987654321 + 1000003 * k) for k in (1, 2, 3, 4)]
def fingerprint(p):
    return T.evaluate(p, _fp)
