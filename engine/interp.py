"""Symbolic executor for the LLVM IR of the harnesses."""
import math, struct, sys
import terms as T
import dd as D
from dd import Node, Poly, Bits, UNDEF
from llparse import *
from compilefn import Compiler, Unsupported, mask, signed, tofloat, toint, intop, icmp, f2i

BASE = 0x10000000
FBASE = 0x70000000
HEAP = 0x100000000
NOIDX = 0xffffffff

class PathEnd(Exception):
    def __init__(self, why):
        self.why = why

class Fork(Exception):
    pass

class Abort(Exception):
    """If-conversion is not possible"""

class Frame:
    __slots__ = ('func', 'R', 'block', 'ip', 'dst')
    def copy(self):
        f = Frame()
        f.func, f.R, f.block, f.ip, f.dst = self.func, list(self.R), self.block, self.ip, self.dst
        return f

class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.brk = HEAP
        self.pc = 1
        self.choices = {}
        self.vars = {}
        self.log = []
        self.goals = []
        self.la_mode = 0
        self.la_vals = ()
        self.la_calls = 0
        self.la_last = None
        self.la_known = {}
        self.la_limit = 0
        self.hyps = []
        self.allow_panic = False
        self.steps = 0
        self.la_hist = []
        self.fresh = {}
        self.round = None

    def copy(self):
        s = State.__new__(State)
        s.__dict__.update(self.__dict__)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.choices = dict(self.choices)
        s.vars = dict(self.vars)
        s.log = list(self.log)
        s.goals = list(self.goals)
        s.hyps = list(self.hyps)
        s.la_known = dict(self.la_known)
        s.la_hist = list(self.la_hist)
        return s

def mapleaf(f, x, memo=None):
    """f over the leaves of a diagram, not memoised across calls"""
    if type(x) is not Node:
        return f(x)
    if memo is None:
        memo = {}
    r = memo.get(x.id)
    if r is None:
        r = memo[x.id] = D.select3(x.v, mapleaf(f, x.n, memo), mapleaf(f, x.z, memo), mapleaf(f, x.p, memo))
    return r

_ins, _ext = {}, {}
def ins_op(off, n):
    f = _ins.get((off, n))
    if f is None:
        m = mask(8 * n) << (8 * off)
        keep = mask(64) & ~m
        def f(w, v):
            if w is UNDEF:
                w = 0
            if type(w) is not int:
                w = toint(w)
                if type(w) is not int:
                    w = 0 if n >= 4 else _bad('partial store over a symbolic double')
            if v is UNDEF:
                v = 0
            if type(v) is not int:
                raise Unsupported('partial store of a symbolic double')
            return (w & keep) | ((v << (8 * off)) & m)
        _ins[(off, n)] = f
    return f
def _bad(s):
    raise Unsupported(s)
def ext_op(off, n):
    f = _ext.get((off, n))
    if f is None:
        m = mask(8 * n)
        def f(w):
            if type(w) is int:
                return (w >> (8 * off)) & m
            if w is UNDEF:
                return w
            w = toint(w)
            if type(w) is int:
                return (w >> (8 * off)) & m
            raise Unsupported('partial load of a symbolic double')
        _ext[(off, n)] = f
    return f

class VM:
    def __init__(self, path, params):
        self.mod = Module(path)
        self.params = params
        self.funcs = {}
        self.gaddr = {}
        self.gmem = {}
        self.gbrk = BASE
        self.faddr = {}
        self.fname = {}
        self.guard = 1
        self.journal = None
        self.st = None
        self.mem = None
        self.encoded = {}
        self.pending = []
        self.ifconv = 0
        self.plain = False
        self.forks = 0
        self.steps = 0
        self.uf_reg = {}
        self.prune = None
        self.implied = None
        self.setup_externs()

    # ------------------------------------------------------------ constants and globals
    def func_addr(self, name):
        a = self.faddr.get(name)
        if a is None:
            a = FBASE + 16 * len(self.faddr)
            self.faddr[name] = a
            self.fname[a] = name
        return a

    def global_addr(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.mod.text or name in self.mod.decls:
            return self.func_addr(name)
        if name not in self.mod.globals:
            raise Unsupported('unknown symbol ' + name)
        g = self.mod.global_def(name)
        if g is None:
            a = self.gbrk
            self.gbrk += 64
            self.gaddr[name] = a
            return a
        ty, t, i = g
        a = self.gbrk
        self.gbrk += (size_of(ty) + 31) // 16 * 16
        self.gaddr[name] = a
        v, _ = self.const(t, i, ty)
        self.init(a, v, ty)
        return a

    def init(self, a, v, ty):
        if type(v) is bytes:
            for n, c in enumerate(v):
                self.put(self.gmem, a + n, 1, c)
        elif ty in ('double', 'ptr') or not isinstance(ty, str) and ty[0] == 'i':
            n = 8 if ty in ('double', 'ptr') else store_size(ty)
            if v is not UNDEF:
                if n == 16:
                    self.put(self.gmem, a, 8, v & mask(64))
                    self.put(self.gmem, a + 8, 8, v >> 64)
                else:
                    self.put(self.gmem, a, n, v)
        elif ty[0] == 's':
            off = offsets(ty)
            for x, f, o in zip(v, ty[2], off):
                self.init(a + o, x, f)
        elif ty[0] in ('a', 'v'):
            s = size_of(ty[2])
            for n, x in enumerate(v):
                self.init(a + n * s, x, ty[2])
        else:
            raise Unsupported('initialiser')

    def put(self, mem, a, n, v):
        w, o = a & ~7, a & 7
        if n == 8 and o == 0:
            mem[w] = v
        elif o + n <= 8:
            mem[w] = ins_op(o, n)(mem.get(w, UNDEF), toint(v) if type(v) is float else v)
        else:
            v = toint(v) if type(v) is float else v
            for k in range(n):
                self.put(mem, a + k, 1, (v >> (8 * k)) & 255)

    def zero(self, ty):
        if ty == 'double':
            return 0.0
        if ty == 'ptr' or ty[0] == 'i':
            return 0
        if ty[0] == 's':
            return tuple(self.zero(f) for f in ty[2])
        return tuple(self.zero(ty[2]) for _ in range(ty[1]))

    def const(self, t, i, ty):
        k = t[i]
        if k in ('undef', 'poison'):
            if ty in ('double', 'ptr') or ty[0] == 'i':
                return UNDEF, i + 1
            n = len(ty[2]) if ty[0] == 's' else ty[1]
            return (UNDEF,) * n, i + 1
        if k == 'zeroinitializer':
            return self.zero(ty), i + 1
        if k == 'null' or k == 'none':
            return 0, i + 1
        if k == 'true':
            return 1, i + 1
        if k == 'false':
            return 0, i + 1
        if k[0] == 'c' and k[1:2] == '"':
            return unescape(k[2:-1]), i + 1
        if k[0] == '@':
            return self.global_addr(k), i + 1
        if ty == 'double':
            return fp(k), i + 1
        if k == 'getelementptr':
            i += 1
            while t[i] != '(':
                i += 1
                if t[i] == '(' and t[i - 1] == 'inrange':
                    i = skip_paren(t, i)
            gty, i = parse_type(t, i + 1, self.mod.named)
            _, i = parse_type(t, i + 1, self.mod.named)
            base, i = self.const(t, i, 'ptr')
            off, first, cur = 0, True, gty
            while t[i] == ',':
                ity, i = parse_type(t, i + 1, self.mod.named)
                v, i = self.const(t, i, ity)
                v = signed(v, ity[1])
                if first:
                    off += v * size_of(cur)
                    first = False
                elif cur[0] == 's':
                    off += offsets(cur)[v]
                    cur = cur[2][v]
                else:
                    off += v * size_of(cur[2])
                    cur = cur[2]
            return (base + off) & mask(64), i + 1
        if k in ('inttoptr', 'ptrtoint', 'bitcast'):
            sty, i = parse_type(t, i + 2, self.mod.named)
            v, i = self.const(t, i, sty)
            _, i = parse_type(t, i + 1, self.mod.named)
            return v, i + 1
        if k in ('add', 'sub', 'xor'):
            i += 1
            while t[i] != '(':
                i += 1
            sty, i = parse_type(t, i + 1, self.mod.named)
            a, i = self.const(t, i, sty)
            sty, i = parse_type(t, i + 1, self.mod.named)
            b, i = self.const(t, i, sty)
            return intop(k, sty[1])(a, b), i + 1
        if k in ('{', '[', '<'):
            out = []
            packed = k == '<' and t[i + 1] == '{'
            if packed:
                i += 1
            close = {'{': '}', '[': ']', '<': '>'}[t[i]]
            i += 1
            while t[i] != close:
                fty, i = parse_type(t, i, self.mod.named)
                v, i = self.const(t, i, fty)
                out.append(v)
                if t[i] == ',':
                    i += 1
            return tuple(out), i + (2 if packed else 1)
        if not isinstance(ty, str) and ty[0] == 'i':
            return int(k) & mask(ty[1]), i + 1
        raise ParseError('constant %r' % k)

    # ------------------------------------------------------------ memory
    def read(self, w):
        v = self.mem.get(w)
        if v is None:
            v = self.gmem.get(w)
            if v is None:
                if w < 4096:
                    raise Unsupported('null pointer load')
                return UNDEF
        return v

    def load1(self, a, n):
        if type(a) is not int:
            if a is UNDEF:
                raise Unsupported('load from an undefined pointer')
            raise Unsupported('symbolic pointer')
        o = a & 7
        if n == 8 and o == 0:
            return self.read(a)
        if n == 16:
            lo, hi = self.load1(a, 8), self.load1(a + 8, 8)
            if type(lo) is int and type(hi) is int:
                return lo | hi << 64
            return (lo, hi)
        if o + n <= 8:
            w = self.read(a & ~7)
            if type(w) is Node:
                return D.lift(ext_op(o, n), w)
            return ext_op(o, n)(w)
        r = 0
        for k in range(n):
            b = self.load1(a + k, 1)
            if type(b) is not int:
                raise Unsupported('unaligned load of a symbolic value')
            r |= b << (8 * k)
        return r

    def load(self, p, n):
        if type(p) is Node:
            def f(a):
                if a is UNDEF:
                    return UNDEF
                return self.load1(a, n)
            return mapleaf(f, p)
        return self.load1(p, n)

    def set(self, w, v):
        if self.journal is not None and w not in self.journal:
            self.journal[w] = self.mem.get(w)
        self.mem[w] = v

    def store1(self, a, n, v, g):
        if type(a) is not int:
            raise Unsupported('store to a symbolic or undefined pointer')
        if a < 4096:
            raise Unsupported('null pointer store')
        o = a & 7
        if n == 8 and o == 0:
            if g != 1 or type(g) is Node:
                v = D.ite(g, v, self.mem_or(a))
            self.set(a, v)
        elif n == 16:
            if type(v) is int:
                v = (v & mask(64), v >> 64)
            elif v is UNDEF:
                v = (UNDEF, UNDEF)
            elif type(v) is not tuple:
                raise Unsupported('i128 store')
            self.store1(a, 8, v[0], g)
            self.store1(a + 8, 8, v[1], g)
        elif o + n <= 8:
            w = a & ~7
            old = self.mem_or(w)
            new = D.lift(ins_op(o, n), old, v)
            if type(g) is Node:
                new = D.ite(g, new, old)
            self.set(w, new)
        elif type(v) is int:
            for k in range(n):
                self.store1(a + k, 1, (v >> (8 * k)) & 255, g)
        else:
            raise Unsupported('unaligned store of a symbolic value')

    def mem_or(self, w):
        v = self.mem.get(w)
        if v is None:
            v = self.gmem.get(w, UNDEF)
        return v

    def store(self, p, n, v):
        if type(p) is Node:
            for a in D.leaves(p):
                if a is UNDEF:
                    continue
                c = mapleaf(lambda x: int(type(x) is int and x == a), p)
                self.store1(a, n, v, D.band(self.guard, c))
        else:
            self.store1(p, n, v, self.guard)

    def memcpy(self, d, s, n):
        if type(n) is not int:
            raise Unsupported('memcpy of symbolic length')
        if n == 0:
            return
        if type(d) is Node or type(s) is Node:
            vals = [self.load(D.lift(intop('add', 64), s, o), 8) for o in range(0, n - 7, 8)]
            if n % 8:
                raise Unsupported('memcpy through symbolic pointer')
            for k, v in enumerate(vals):
                self.store(D.lift(intop('add', 64), d, 8 * k), 8, v)
            return
        if (d & 7) == (s & 7) == 0:
            vals = [self.read(s + o) for o in range(0, n & ~7, 8)]
            tail = [(o, self.load1(s + o, 1)) for o in range(n & ~7, n)]
            for k, v in enumerate(vals):
                self.store1(d + 8 * k, 8, v, self.guard)
        else:
            tail = [(o, self.load1(s + o, 1)) for o in range(n)]
        for o, v in tail:
            self.store1(d + o, 1, v, self.guard)

    def memset(self, d, c, n):
        if type(n) is not int or type(d) is not int or type(c) is not int:
            raise Unsupported('symbolic memset')
        w = int.from_bytes(bytes([c]) * 8, 'little')
        a = d
        while a < d + n:
            if a % 8 == 0 and a + 8 <= d + n:
                self.store1(a, 8, w, self.guard)
                a += 8
            else:
                self.store1(a, 1, c, self.guard)
                a += 1

    def alloc(self, n, zero=False):
        if type(n) is not int:
            raise Unsupported('allocation of symbolic size')
        a = self.st.brk
        self.st.brk = a + (n + 31) // 16 * 16
        if zero:
            self.memset(a, 0, n)
        return a

    # ------------------------------------------------------------ instruction handlers (R, payload) -> value
    def x_bin(self, R, p):
        f, x, y = p
        a, b = R[x], R[y]
        if type(a) is Node or type(b) is Node:
            return D.lift(f, a, b)
        return f(a, b)
    def x_fbin(self, R, p):
        f, x, y = p
        if self.st.round is not None:
            f = rounding(f)
        a, b = R[x], R[y]
        if type(a) is Node or type(b) is Node:
            return D.lift(f, a, b)
        return f(a, b)
    def x_and1(self, R, p):
        a, b = R[p[1]], R[p[2]]
        if a is UNDEF or b is UNDEF:
            return 0 if (type(a) is int and a == 0) or (type(b) is int and b == 0) else UNDEF
        return D.band(a, b)
    def x_or1(self, R, p):
        a, b = R[p[1]], R[p[2]]
        if a is UNDEF or b is UNDEF:
            return 1 if (type(a) is int and a == 1) or (type(b) is int and b == 1) else UNDEF
        return D.bor(a, b)
    def x_un(self, R, p):
        f, x = p
        a = R[x]
        if type(a) is Node:
            return D.lift(f, a)
        return f(a)
    def x_select(self, R, p):
        c, x, y = R[p[0]], R[p[1]], R[p[2]]
        if type(c) is int:
            return x if c else y
        if c is UNDEF:
            return UNDEF
        return D.ite(c, x, y)
    def x_mov(self, R, p):
        return R[p]
    def x_freeze(self, R, p):
        v = R[p]
        return v
    def x_alloca(self, R, p):
        return self.alloc(p)
    def x_loadf(self, R, p):
        a = R[p]
        if type(a) is int and not a & 7:
            v = self.read(a)
        else:
            v = self.load(a, 8)
        t = type(v)
        if t is float or t is Poly:
            return v
        if t is Node:
            return D.lift(_tofloat, v)
        if v is UNDEF:
            return v
        return tofloat(v)
    def x_load64(self, R, p):
        a = R[p[0]]
        if type(a) is int and not a & 7:
            v = self.read(a)
        else:
            v = self.load(a, 8)
        t = type(v)
        if t is int:
            return v
        if t is Node:
            return D.lift(_toint, v)
        if v is UNDEF:
            return v
        return toint(v)
    def x_loadn(self, R, p):
        v = self.load(R[p[0]], p[1])
        if p[2]:
            if type(v) is int:
                return v & 1
            return D.lift(_and1, v)
        return v
    def x_loadagg(self, R, p):
        ty = p[1]
        a = R[p[0]]
        return self.loadty(a, ty)
    def loadty(self, a, ty):
        if ty == 'double':
            return D.lift(_tofloat, self.load(a, 8))
        if ty == 'ptr':
            return D.lift(_toint, self.load(a, 8))
        if ty[0] == 'i':
            v = self.load(a, store_size(ty))
            return D.lift(_toint, v) if store_size(ty) == 8 else v
        add = intop('add', 64)
        if ty[0] == 's':
            return tuple(self.loadty(D.lift(add, a, o), f) for f, o in zip(ty[2], offsets(ty)))
        s = size_of(ty[2])
        return tuple(self.loadty(D.lift(add, a, k * s), ty[2]) for k in range(ty[1]))
    def x_store64(self, R, p):
        a = R[p[1]]
        if type(a) is int and self.guard == 1 and type(self.guard) is int and not a & 7 and a >= 4096:
            self.set(a, R[p[0]])
        else:
            self.store(a, 8, R[p[0]])
    def x_storen(self, R, p):
        self.store(R[p[1]], p[2], R[p[0]])
    def x_storeagg(self, R, p):
        self.storety(R[p[1]], R[p[0]], p[2])
    def storety(self, a, v, ty):
        if ty in ('double', 'ptr') or ty[0] == 'i':
            return self.store(a, 8 if ty in ('double', 'ptr') else store_size(ty), v)
        add = intop('add', 64)
        if ty[0] == 's':
            for x, f, o in zip(v, ty[2], offsets(ty)):
                self.storety(D.lift(add, a, o), x, f)
            return
        s = size_of(ty[2])
        for k, x in enumerate(v):
            self.storety(D.lift(add, a, k * s), x, ty[2])
    def x_gepc(self, R, p):
        a = R[p[0]]
        if type(a) is int:
            return (a + p[1]) & 0xffffffffffffffff
        return D.lift(intop('add', 64), a, p[1] & mask(64))
    def x_gep(self, R, p):
        a, off = R[p[0]], p[1]
        for r, sz, bits in p[2]:
            v = R[r]
            if type(v) is int:
                off += signed(v, bits) * sz
            elif v is UNDEF:
                return UNDEF
            else:
                k = _mulk(sz, bits)
                a = D.lift(intop('add', 64), a, D.lift(k, v))
        if type(a) is int:
            return (a + off) & 0xffffffffffffffff
        return D.lift(intop('add', 64), a, off & mask(64))
    def x_extract(self, R, p):
        v = R[p[0]]
        for i in p[1]:
            if type(v) is Node:
                v = mapleaf(lambda x: x if x is UNDEF else x[i], v)
            elif v is not UNDEF:
                v = v[i]
        return v
    def x_insert(self, R, p):
        x, v, idx, nf = p
        def ins(t, k, n):
            if t is UNDEF or t is None:
                t = (UNDEF,) * (n or 2)
            i = idx[k]
            new = R[v] if k == len(idx) - 1 else ins(t[i], k + 1, None)
            return t[:i] + (new,) + t[i + 1:]
        return ins(R[x], 0, nf)
    def x_intr(self, R, p):
        f, args = p
        vs = [R[a] for a in args]
        for v in vs:
            if v is UNDEF:
                return UNDEF
        return D.lift(f, *vs)
    # handlers below are dispatched by kind
    def x_call(self, R, p): pass
    def x_callptr(self, R, p): pass
    def x_extern(self, R, p):
        return p[0](self, [R[a] for a in p[1]])
    def x_rmw(self, R, p):
        op, a, v, ty = p
        old = self.loadty(R[a], ty)
        if op == 'xchg':
            new = R[v]
        else:
            new = D.lift(self.rmw(op, 64 if ty == 'ptr' else ty[1]), old, R[v])
        self.storety(R[a], new, ty)
        return old
    @staticmethod
    def rmw(op, bits):
        signed = lambda x: x - (1 << bits) if x >> (bits - 1) else x
        f = {'max': lambda x, y: max(x, y, key=signed), 'min': lambda x, y: min(x, y, key=signed), 'umax': max, 'umin': min,
             'nand': lambda x, y: ~(x & y) & mask(bits)}.get(op)
        return f or intop(op, bits)
    def x_cmpxchg(self, R, p):
        a, cmp, new, ty = p
        old = self.loadty(R[a], ty)
        if type(old) is not int or type(R[cmp]) is not int:
            raise Unsupported('cmpxchg of a symbolic value')
        if old == R[cmp]:
            self.storety(R[a], R[new], ty)
        return (old, int(old == R[cmp]))
    def x_jump(self, R, p): pass
    def x_br(self, R, p): pass
    def x_switch(self, R, p): pass
    def x_ret(self, R, p): pass
    def x_unreachable(self, R, p): pass
    def x_unsupported(self, R, p):
        raise Unsupported(p)

    # ------------------------------------------------------------ functions
    def function(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = Compiler(self, name).compile(self.mod.text[name])
            self.funcs[name] = f
        return f

    def push(self, name, args, dst):
        f = self.function(name)
        self.encoded[name] = self.encoded.get(name, 0) + 1
        fr = Frame()
        fr.func = f
        fr.R = list(f.template)
        for r, v in zip(f.params, args):
            fr.R[r] = v
        fr.block = f.entry
        fr.ip = 0
        fr.dst = dst
        if len(self.st.frames) > 200:
            raise Unsupported('recursion')
        self.st.frames.append(fr)

    def goto(self, fr, target):
        ph = target.phis
        if ph:
            name = fr.block.name
            R = fr.R
            vals = [R[inc[name]] for _, inc in ph]
            for (d, _), v in zip(ph, vals):
                R[d] = v
        fr.block = target
        fr.ip = 0

    # ------------------------------------------------------------ control flow on symbolic conditions
    def region(self, fr, b):
        """(blocks in topological order, join) of the acyclic region below block b, or None"""
        if b.region is not None:
            return b.region
        f = fr.func
        ip = getattr(f, 'addr', None)
        ipd = self.postdom(f)
        j = ipd.get(b)
        if j is None:
            b.region = False
            return False
        order, seen, stack = [], {}, set()
        ok = True
        def visit(x):
            nonlocal ok
            if x is j or not ok:
                return
            if x in stack or x is b:
                ok = False
                return
            if x in seen:
                return
            seen[x] = 1
            stack.add(x)
            for s in x.succ:
                visit(s)
            stack.discard(x)
            order.append(x)
        for s in b.succ:
            visit(s)
        if not ok or len(order) > 60:
            b.region = False
        else:
            order.reverse()
            b.region = (order, j)
        return b.region

    def postdom(self, f):
        """immediate postdominators; blocks that end in a dead end (panic) are ignored"""
        r = _pdom.get(f.name)
        if r is not None:
            return r
        # blocks that can reach a return
        good = set(b for b in f.blocks if b.code and b.code[-1][3] == 'ret')
        work = list(good)
        while work:
            x = work.pop()
            for p in x.preds:
                if p not in good:
                    good.add(p)
                    work.append(p)
        # iterative postdominator sets via bitmasks
        idx = {b: i for i, b in enumerate(f.blocks)}
        EXIT = len(f.blocks)
        full = (1 << (EXIT + 1)) - 1
        pd = {b: full for b in good}
        order = [b for b in reversed(f.blocks) if b in good]
        ch = True
        while ch:
            ch = False
            for b in order:
                if b.code[-1][3] == 'ret':
                    s = 1 << EXIT
                else:
                    s = full
                    for x in b.succ:
                        if x in good:
                            s &= pd[x]
                s |= 1 << idx[b]
                if s != pd[b]:
                    pd[b] = s
                    ch = True
        r = {}
        for b in good:
            s = pd[b] & ~(1 << idx[b]) & ~(1 << EXIT)
            # the immediate one is postdominated by all the others
            best, bn = None, -1
            i = 0
            while s >> i:
                if s >> i & 1:
                    n = bin(pd[f.blocks[i]]).count('1')
                    if n > bn:
                        best, bn = f.blocks[i], n
                i += 1
            r[b] = best
        _pdom[f.name] = r
        return r

    def edges(self, fr, b, ins, g):
        """[(target, condition)] of the terminator under guard g"""
        R = fr.R
        h, _, pl, kind = ins
        if h == self.x_jump:
            return [(pl, g)]
        if h == self.x_br:
            c = R[pl[0]]
            if c is UNDEF:
                raise Unsupported('branch on an undefined value')
            if type(c) is int:
                return [(pl[1] if c else pl[2], g)]
            return [(pl[1], D.band(g, c)), (pl[2], D.band(g, D.bnot(c)))]
        if h == self.x_switch:
            x = R[pl[0]]
            if x is UNDEF:
                raise Unsupported('switch on an undefined value')
            if type(x) is int:
                return [(pl[1].get(x, pl[2]), g)]
            by = {}
            for l in D.leaves(x):
                if type(l) is not int:
                    raise Unsupported('switch on a symbolic value')
                by.setdefault(pl[1].get(l, pl[2]), set()).add(l)
            return [(t, D.band(g, mapleaf(lambda v: int(v in ls), x))) for t, ls in by.items()]
        raise Abort()

    def if_convert(self, fr, ins):
        """Execute both sides of a symbolic branch up to the join; False when not possible."""
        b = fr.block
        reg = self.region(fr, b)
        if not reg:
            return False
        fails = _convfail.get((fr.func.name, b.index), 0)
        if fails > 8:
            return False
        order, join = reg
        saveR = list(fr.R)
        save_journal = self.journal
        self.journal = {}
        brk = self.st.brk
        try:
            pc = self.st.pc
            inc = {}
            for t, c in self.edges(fr, b, ins, 1):
                c = D.restrict(c, pc)
                if type(c) is int and c == 0:
                    continue
                inc.setdefault(t, []).append((b, c))
            R = fr.R
            for blk in order:
                es = inc.get(blk)
                if not es:
                    continue
                g = es[0][1]
                for _, c in es[1:]:
                    g = D.bor(g, c)
                if type(g) is int and g == 0:
                    continue
                if type(D.band(g, pc)) is int and D.band(g, pc) == 0:
                    continue
                self.phis(R, blk, es)
                self.guard = g
                for i2 in blk.code:
                    h, dst, pl, kind = i2
                    if kind == 'pure':
                        R[dst] = h(R, pl)
                    elif kind == 'store':
                        h(R, pl)
                    elif kind == 'term':
                        for t, c in self.edges(fr, blk, i2, g):
                            if not (type(c) is int and c == 0):
                                inc.setdefault(t, []).append((blk, c))
                    else:
                        raise Abort()
            self.guard = 1
            es = inc.get(join)
            if not es:
                raise Abort()
            self.phis(R, join, es)
            if save_journal is not None:
                for w, v in self.journal.items():
                    save_journal.setdefault(w, v)
            self.journal = save_journal
            fr.block = join
            fr.ip = 0
            self.ifconv += 1
            return True
        except (Abort, Unsupported, NotImplementedError) as e:
            self.guard = 1
            for w, v in self.journal.items():
                if v is None:
                    self.mem.pop(w, None)
                else:
                    self.mem[w] = v
            self.journal = save_journal
            fr.R[:] = saveR
            self.st.brk = brk
            _convfail[(fr.func.name, b.index)] = fails + 1
            return False

    def phis(self, R, blk, es):
        if not blk.phis:
            return
        vals = []
        for _, inc in blk.phis:
            v = R[inc[es[-1][0].name]]
            for p, c in reversed(es[:-1]):
                v = D.ite(c, R[inc[p.name]], v)
            vals.append(v)
        for (d, _), v in zip(blk.phis, vals):
            R[d] = v

    def assume(self, c):
        """Add c to the path condition of the current state and simplify what is live."""
        st = self.st
        pc = D.band(st.pc, c)
        if type(pc) is int and pc == 0:
            raise PathEnd('infeasible')
        if pc is st.pc or same_int(pc, st.pc):
            return
        st.pc = pc
        restrict = D.restrict
        mem = st.mem
        for w, v in list(mem.items()):
            if type(v) is Node:
                mem[w] = restrict(v, pc)
        for fr in st.frames:
            R = fr.R
            for i, v in enumerate(R):
                if type(v) is Node or type(v) is tuple:
                    R[i] = restrict(v, pc)

    def fork(self, fr, alts):
        """alts: [(target, condition)]"""
        live = []
        pc = self.st.pc
        for t, c in alts:
            n = D.band(pc, c)
            if not (type(n) is int and n == 0):
                live.append((t, c, n))
        if len(live) > 1 and self.prune:
            live = [x for x in live if self.prune(x[2])]
        if not live:
            raise PathEnd('infeasible')
        self.forks += len(live) - 1
        for t, c, _ in live[1:]:
            s2 = self.st.copy()
            self.pending.append((s2, t, c))
        t, c, _ = live[0]
        self.assume(c)
        self.goto(self.st.frames[-1], t)

    def resume(self, item):
        st, t, c = item
        self.enter(st)
        if callable(t):
            t(self)
            return
        self.assume(c)
        self.goto(st.frames[-1], t)

    def enter(self, st):
        self.st = st
        self.mem = st.mem
        self.guard = 1
        self.journal = None

    # ------------------------------------------------------------ main loop
    def run(self, limit=50000000):
        """Run the current state to its end; returns why it ended."""
        st = self.st
        try:
            while True:
                fr = st.frames[-1]
                R = fr.R
                code = fr.block.code
                ip = fr.ip
                n = len(code)
                while ip < n:
                    h, dst, pl, kind = code[ip]
                    ip += 1
                    if kind == 'pure':
                        R[dst] = h(R, pl)
                    elif kind == 'store':
                        h(R, pl)
                    else:
                        break
                fr.ip = ip
                self.steps += ip
                if kind == 'term':
                    if h == self.x_jump:
                        self.goto(fr, pl)
                    elif h == self.x_br:
                        c = R[pl[0]]
                        if type(c) is int:
                            self.goto(fr, pl[1] if c else pl[2])
                        else:
                            self.branch(fr, code[ip - 1])
                    else:
                        x = R[pl[0]]
                        if type(x) is int:
                            self.goto(fr, pl[1].get(x, pl[2]))
                        else:
                            self.branch(fr, code[ip - 1])
                elif kind == 'impure':
                    if h == self.x_call:
                        self.push(pl[0], [R[a] for a in pl[1]], dst)
                    elif h == self.x_extern:
                        v = pl[0](self, [R[a] for a in pl[1]])
                        if dst is not None:
                            R[dst] = v
                    elif h == self.x_callptr:
                        p = R[pl[0]]
                        if type(p) is Node:
                            self.callnode(fr, p, ip)
                            continue
                        name = self.fname.get(p)
                        if name is None:
                            raise Unsupported('call through a bad pointer')
                        args = [R[a] for a in pl[1]]
                        if name in self.mod.text:
                            self.push(name, args, dst)
                        else:
                            v = self.extern(name[1:].strip('"'))(self, args)
                            if dst is not None:
                                R[dst] = v
                    else:
                        v = h(R, pl)
                        if dst is not None:
                            R[dst] = v
                elif kind == 'ret':
                    v = R[pl] if pl is not None else None
                    st.frames.pop()
                    if not st.frames:
                        return 'end'
                    if fr.dst is not None:
                        st.frames[-1].R[fr.dst] = v
                elif kind == 'dead':
                    return 'unreachable'
                else:
                    raise Unsupported('fell off a block')
        except PathEnd as e:
            return e.why

    def callnode(self, fr, p, ip):
        """Call through a pointer that depends on the path: fork on it."""
        alts = D.leaves(p)
        fr.ip = ip - 1
        conds = [mapleaf(lambda x, a=a: int(D.same(x, a)), p) for a in alts]
        pc = self.st.pc
        live = [c for c in conds if not _isfalse(D.band(pc, c))]
        if not live:
            raise PathEnd('infeasible')
        for c in live[1:]:
            s2 = self.st.copy()
            self.pending.append((s2, _assume_only(c), None))
        self.assume(live[0])

    def branch(self, fr, ins):
        R = fr.R
        r = ins[2][0]
        c = R[r]
        if c is UNDEF:
            raise Unsupported('branch on an undefined value in ' + fr.func.name)
        c2 = D.restrict(c, self.st.pc)
        if c2 is not c:
            R[r] = c2
            if self.implied is not None and type(c2) is int and type(c) is Node:
                self.implied(self.st.pc, c, c2)
        es = self.edges(fr, fr.block, ins, 1)
        if len(es) == 1:
            self.goto(fr, es[0][0])
            return
        pc = self.st.pc
        es = [(t, x) for t, x in es if not _isfalse(D.band(pc, x))]
        if len(es) == 1:
            self.goto(fr, es[0][0])
            return
        if self.if_convert(fr, ins):
            return
        self.fork(fr, es)

    # ------------------------------------------------------------ environment
    def string(self, p, n):
        return bytes(self.load1(p + k, 1) for k in range(n)).decode()

    def name(self, a):
        s = self.string(a[0], a[1])
        return s if a[2] == NOIDX else '%s.%d' % (s, a[2])

    def intrinsic(self, n):
        if n.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.invariant', 'llvm.prefetch')):
            return 'skip'
        if n.startswith('llvm.threadlocal.address'):
            return ('pure', lambda p: p)
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            return ('store', lambda vm, a: vm.memcpy(a[0], a[1], a[2]))
        if n.startswith('llvm.memset'):
            return ('store', lambda vm, a: vm.memset(a[0], a[1], a[2]))
        parts = n.split('.')
        base = '.'.join(parts[1:-1])
        suffix = parts[-1]
        if suffix == 'f64' and base in MATH:
            return ('pure', MATH[base])
        if base == 'powi.f64':
            return ('pure', D.fpowi)
        if suffix[0] == 'i' and suffix[1:].isdigit():
            b = int(suffix[1:])
            f = iintr(base, b)
            if f:
                return ('pure', f)
        if n in ('llvm.trap', 'llvm.ubsantrap'):
            return ('impure', lambda vm, a: _end('panic'))
        m = re.match(r'llvm\.fpto([su])i\.sat\.i(\d+)\.f64', n)
        if m:
            return ('pure', f2i(int(m.group(2)), m.group(1) == 's', True))
        if n.startswith('llvm.is.fpclass'):
            return ('pure', fpclass)
        def unsup(vm, a):
            raise Unsupported('intrinsic ' + n)
        return ('impure', unsup)

    def extern(self, n):
        h = self.ext.get(n)
        if h is not None:
            return h
        for k, h in self.ext_sub:
            if k in n:
                return h
        if n in MATH:
            f = MATH[n]
            return lambda vm, a: D.lift(f, *a)
        def unsup(vm, a):
            raise Unsupported('extern ' + n)
        return unsup

    def setup_externs(self):
        def realloc(vm, a):
            p, old, al, new = a
            q = vm.alloc(new)
            vm.memcpy(q, p, min(old, new))
            return q
        def memcmp(vm, a):
            n = a[2]
            for k in range(n):
                x, y = vm.load1(a[0] + k, 1), vm.load1(a[1] + k, 1)
                if type(x) is not int or type(y) is not int:
                    raise Unsupported('memcmp of symbolic memory')
                if x != y:
                    return mask(32) if x < y else 1
            return 0
        def panic(vm, a):
            raise PathEnd('panic')
        def backtrace(vm, a):
            vm.memset(a[0], 0, 48)
            vm.store1(a[0], 8, 1, 1)       # disabled
        def format_inner(vm, a):
            vm.store1(a[0], 8, 0, 1)
            vm.store1(a[0] + 8, 8, 1, 1)
            vm.store1(a[0] + 16, 8, 0, 1)
        zero = lambda vm, a: 0
        def once(vm, a):
            # a run has one thread: the state is either complete or not yet
            if vm.load(a[0], 4) == 0:
                return
            vm.store(a[0], 4, 0)
            state = vm.alloc(8)
            vm.memset(state, 0, 8)
            f = vm.fname.get(vm.load(a[3] + 32, 8))
            if f is None or f not in vm.mod.text:
                raise Unsupported('initialiser')
            vm.push(f, [a[2], state], None)
        self.ext_sub = [
            ('4sync4once5futexNtB5_4Once4call', once),
            ('___rust_alloc_zeroed', lambda vm, a: vm.alloc(a[0], True)), ('___rust_alloc', lambda vm, a: vm.alloc(a[0])),
            ('___rust_realloc', realloc), ('___rust_dealloc', zero), ('no_alloc_shim', zero),
            ('Backtrace7capture', backtrace), ('12format_inner', format_inner),
            ('panicking', panic), ('unwrap_failed', panic), ('expect_failed', panic), ('handle_alloc_error', panic),
            ('12handle_error', panic), ('17capacity_overflow', panic), ('index_fail', panic), ('begin_panic', panic), ('panic_', panic),
            ('_fail', panic), ('core3fmt', zero), ('5alloc3fmt', zero),
        ]
        self.ext = {
            'memcmp': memcmp, 'bcmp': memcmp,
            'memcpy': lambda vm, a: (vm.memcpy(a[0], a[1], a[2]), a[0])[1],
            'memmove': lambda vm, a: (vm.memcpy(a[0], a[1], a[2]), a[0])[1],
            'memset': lambda vm, a: (vm.memset(a[0], a[1], a[2]), a[0])[1],
            'abort': panic,
            '__v_real': x_real, '__v_choice': x_choice, '__v_uf': x_uf, '__v_same': x_same, '__v_assume': x_assume,
            '__v_check': x_check, '__v_check_eq': x_check_eq, '__v_check_eq_known': x_check_eq_known, '__v_check_le': x_check_le,
            '__v_cover': x_cover, '__v_obs': x_obs, '__v_param': x_param, '__v_native': zero, '__v_deriv': x_deriv,
            '__v_la_set': x_la_set, '__v_la_calls': lambda vm, a: vm.st.la_calls, '__v_allow_panic': x_allow_panic, '__v_la_limit': x_la_limit,
            '__v_rounding': x_rounding, '__v_la_get': x_la_get, '__v_fresh': x_fresh,
            '__verif_la_mode': x_la_mode, '__verif_la': x_la,
        }

_rounding = {}
def rounding(f):
    """The operation f followed by an arbitrary rounding error, unless it is exact"""
    g = _rounding.get(f)
    if g is None:
        def g(a, b):
            r = f(a, b)
            if type(r) is not Poly or r is a or r is b:
                return r
            for x, y in ((a, b), (b, a)):
                # multiplication or division by a power of two, negation
                if type(x) is float and math.isfinite(x) and x and abs(math.frexp(x)[0]) == 0.5 and type(y) is Poly and (
                        r is T.mul(y, T.rationalise(x)) or x is b and r is T.div(y, T.rationalise(x))):
                    return r
            return T.rounded(r)
        _rounding[f] = g
    return g

_pdom = {}
_convfail = {}
def same_int(a, b):
    return type(a) is int and type(b) is int and a == b
def _isfalse(c):
    return type(c) is int and c == 0
def _end(why):
    raise PathEnd(why)
def _assume_only(c):
    return lambda vm: vm.assume(c)
def _tofloat(x):
    return x if x is UNDEF else tofloat(x)
def _toint(x):
    return x if x is UNDEF else toint(x)
def _and1(x):
    return x if x is UNDEF else x & 1
_mk = {}
def _mulk(sz, bits):
    f = _mk.get((sz, bits))
    if f is None:
        f = _mk[(sz, bits)] = lambda v: v if v is UNDEF else (signed(v, bits) * sz) & mask(64)
    return f

# ---------------------------------------------------------------- mathematical functions
def both(f):
    return f
def fmax(a, b):
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    return D.ite(D.fcmp('oge', a, b), a, b)
def fmin(a, b):
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    return D.ite(D.fcmp('ole', a, b), a, b)
def copysign(a, b):
    if type(a) is float and type(b) is float:
        return math.copysign(a, b)
    x = D.fabs(a)
    if type(b) is float:
        return x if math.copysign(1.0, b) > 0 else D.lift(D.fneg, x)
    return D.lift(lambda y: D.sign(b, D.fneg(y), y, y), x)
def conc(f, name):
    def g(*a):
        for x in a:
            if type(x) is not float:
                raise Unsupported('%s of a symbolic value' % name)
        try:
            return f(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            return math.nan
    return g
def via(f):
    """Defined through other leaf operations that may themselves branch"""
    return f
L = D.lift
MATH = {
    'sqrt': D.fsqrt, 'fabs': D.fabs, 'sin': D.fsin, 'cos': D.fcos, 'tan': D.ftan, 'exp': D.fexp, 'log': D.fln, 'pow': D.fpow, 'powi': D.fpowi,
    'maxnum': fmax, 'minnum': fmin, 'maximumnum': fmax, 'minimumnum': fmin, 'fmax': fmax, 'fmin': fmin, 'maximum': fmax, 'minimum': fmin,
    'fma': lambda a, b, c: L(D.fadd, D.fmul(a, b), c), 'fmuladd': lambda a, b, c: L(D.fadd, D.fmul(a, b), c),
    'hypot': lambda a, b: L(D.fsqrt, L(D.fadd, D.fmul(a, a), D.fmul(b, b))),
    'copysign': copysign,
    'expm1': lambda a: L(D.fsub, D.fexp(a), 1.0), 'log1p': lambda a: L(D.fln, D.fadd(a, 1.0)),
    'exp2': lambda a: L(D.fexp, D.fmul(a, math.log(2.0))),
    'log2': lambda a: L(D.fdiv, D.fln(a), T.ln(T.const(2))) if type(a) is not float else math.log2(a) if a > 0 else math.nan,
    'log10': lambda a: L(D.fdiv, D.fln(a), T.ln(T.const(10))) if type(a) is not float else math.log10(a) if a > 0 else math.nan,
    'sinh': lambda a: L(D.fmul, 0.5, L(D.fsub, D.fexp(a), L(D.fexp, D.fneg(a)))),
    'cosh': lambda a: L(D.fmul, 0.5, L(D.fadd, D.fexp(a), L(D.fexp, D.fneg(a)))),
    'tanh': lambda a: (lambda e: L(D.fdiv, L(D.fsub, e, 1.0), L(D.fadd, e, 1.0)))(D.fexp(D.fmul(2.0, a))),
    'floor': conc(lambda x: float(math.floor(x)), 'floor'), 'ceil': conc(lambda x: float(math.ceil(x)), 'ceil'),
    'trunc': conc(lambda x: float(math.trunc(x)), 'trunc'), 'round': conc(lambda x: math.copysign(math.floor(abs(x) + 0.5), x), 'round'),
    'rint': conc(lambda x: float(round(x)), 'rint'), 'roundeven': conc(lambda x: float(round(x)), 'roundeven'),
    'cbrt': conc(lambda x: math.copysign(abs(x) ** (1 / 3), x), 'cbrt'), 'fmod': conc(math.fmod, 'fmod'),
    'atan2': conc(math.atan2, 'atan2'), 'atan': conc(math.atan, 'atan'), 'asin': conc(math.asin, 'asin'), 'acos': conc(math.acos, 'acos'),
}
def fpclass(x, m):
    if type(x) is float:
        c = (3 if math.copysign(1, x) > 0 else 3) if x != x else 0
        bits = 0
        if x != x:
            bits = 0x3
        elif math.isinf(x):
            bits = 0x200 if x > 0 else 0x4
        elif x == 0:
            bits = 0x40 if math.copysign(1, x) > 0 else 0x20
        elif abs(x) < 2.2250738585072014e-308:
            bits = 0x80 if x > 0 else 0x10
        else:
            bits = 0x100 if x > 0 else 0x8
        return int(bool(m & bits))
    return D.sign(x, int(bool(m & 0x8)), int(bool(m & 0x40)), int(bool(m & 0x100)))

def floor(x):
    """Of a value with few possible answers"""
    if type(x) is float:
        return float(math.floor(x)) if math.isfinite(x) else x
    lo, hi = T.interval(x)
    if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo > 80:
        raise Unsupported('floor of a symbolic value in [%g, %g]' % (lo, hi))
    a, b = math.floor(lo), math.floor(hi)
    r = float(a)
    for k in range(a + 1, b + 1):
        r = D.ite(D.fcmp('oge', x, float(k)), float(k), r)
    return r
def plus_half(x):
    return D.fadd(x, 0.5)
def ceil(x):
    return L(D.fneg, L(floor, L(D.fneg, x)))
def trunc(x):
    if type(x) is float:
        return float(math.trunc(x)) if math.isfinite(x) else x
    return D.ite(D.fcmp('oge', x, 0.0), L(floor, x), ceil(x))
def fround(x):
    if type(x) is float:
        return math.copysign(math.floor(abs(x) + 0.5), x) if math.isfinite(x) else x
    up = L(floor, plus_half(x))
    return D.ite(D.fcmp('oge', x, 0.0), up, L(D.fneg, L(floor, L(plus_half, L(D.fneg, x)))))
def fmod(a, b):
    if type(a) is float and type(b) is float:
        return math.fmod(a, b) if b and math.isfinite(a) else math.nan
    q = L(trunc, L(D.fdiv, a, b))
    return L(D.fsub, a, L(D.fmul, q, b))
MATH.update({'floor': floor, 'ceil': ceil, 'trunc': trunc, 'round': fround, 'fmod': fmod})

_ii = {}
def iintr(base, b):
    k = (base, b)
    if k in _ii:
        return _ii[k]
    M = mask(b)
    sg = lambda x: signed(x, b)
    f = None
    if base.endswith('.with.overflow'):
        op = base[1:4]
        s = base[0] == 's'
        pyop = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op]
        def f(x, y):
            if s:
                x, y = sg(x), sg(y)
            r = pyop(x, y)
            return (r & M, int(r < -(1 << b - 1) or r >= 1 << b - 1) if s else int(r < 0 or r > M))
    elif base in ('umin', 'umax', 'smin', 'smax'):
        kf = (lambda x: x) if base[0] == 'u' else sg
        pick = min if base.endswith('min') else max
        def f(x, y):
            if type(x) is int and type(y) is int:
                return pick(x, y, key=kf)
            c = icmp({'umin': 'ule', 'umax': 'uge', 'smin': 'sle', 'smax': 'sge'}[base], b)(x, y)
            return D.ite(c, x, y)
    elif base in ('usub.sat', 'uadd.sat'):
        f = (lambda x, y: max(0, x - y)) if base[1] == 's' else (lambda x, y: min(M, x + y))
    elif base == 'ctpop':
        f = lambda x: bin(x).count('1')
    elif base in ('ctlz', 'cttz'):
        def f(x, z):
            if x == 0:
                return b
            return b - x.bit_length() if base == 'ctlz' else (x & -x).bit_length() - 1
    elif base == 'abs':
        f = lambda x, z: abs(sg(x)) & M
    elif base == 'bswap':
        f = lambda x: int.from_bytes(x.to_bytes(b // 8, 'little'), 'big')
    elif base in ('fshl', 'fshr'):
        def f(x, y, c):
            c %= b
            w = (x << b) | y
            return ((w << c) >> b) & M if base == 'fshl' else (w >> c) & M
    elif base in ('ucmp', 'scmp'):
        def f(x, y):
            raise Unsupported('cmp')
    elif base == 'expect':
        f = lambda x, y: x
    _ii[k] = f
    return f

# ---------------------------------------------------------------- harness interface
def x_real(vm, a):
    n = vm.name(a)
    lo, hi = a[3], a[4]
    old = vm.st.vars.get(n)
    if old is None:
        vm.st.vars[n] = (lo, hi)
    elif old != (lo, hi):
        raise Unsupported('input %s with two ranges' % n)
    return T.var(n, lo, hi)

def x_choice(vm, a):
    n = vm.name(a)
    k = a[3]
    st = vm.st
    if n in st.choices:
        return st.choices[n]
    fr = st.frames[-1]
    dst = fr.block.code[fr.ip - 1][1]
    for v in range(k - 1, 0, -1):
        s2 = st.copy()
        s2.choices[n] = v
        s2.frames[-1].R[dst] = v
        vm.pending.append((s2, lambda vm: None, None))
    st.choices[n] = 0
    return 0

def x_uf(vm, a):
    n = vm.name(a)
    cnt, lo, hi = a[4], a[5], a[6]
    if lo == hi:
        return float(lo)
    args = [D.lift(_tofloat, vm.load(a[3] + 8 * k, 8)) for k in range(cnt)]
    return D.lift(uf_leaf(vm, n, lo, hi), *args)

_ufl = {}
def uf_leaf(vm, n, lo, hi):
    f = _ufl.get((n, lo, hi))
    if f is None:
        def f(*args):
            ps = []
            for x in args:
                if x is UNDEF:
                    return UNDEF
                if type(x) is float:
                    if not math.isfinite(x):
                        return math.nan
                    x = T.rationalise(x)
                ps.append(T.canon(x))
            return T.uf(n, ps, lo, hi)
        _ufl[(n, lo, hi)] = f
    return f

def _same(a, b):
    if type(a) is float and type(b) is float:
        return int(a == b or (a != a and b != b))
    if not D.fin(a) or not D.fin(b):
        return 0
    return int(T.is_zero(T.sub(D.P(a), D.P(b))))
def x_same(vm, a):
    return D.lift(_same, a[0], a[1])

def x_assume(vm, a):
    c = a[0]
    if type(c) is int:
        if not c:
            raise PathEnd('infeasible')
        return
    vm.assume(c)

def close(a, b):
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b))

def x_check(vm, a):
    n = vm.name(a)
    vm.goal('check', n, a[3], None)

def eq_leaf(a, b):
    if a is UNDEF or b is UNDEF:
        return 0
    if type(a) is float and type(b) is float:
        return int(close(a, b))
    if not D.fin(a) or not D.fin(b):
        return 0
    d = T.sub(D.P(a), D.P(b))
    if negligible(d, a, b):
        return 1
    return D.sign(d, 0, 1, 0)

def negligible(d, a, b):
    return T.is_zero(d)

def x_check_eq(vm, a):
    vm.goal('eq', vm.name(a), (a[3], a[4], a[5]), None)

def x_check_eq_known(vm, a):
    vm.goal('known', vm.name(a), (a[3], a[4], a[5], a[6]), vm.string(a[7], a[8]))

def le_leaf(a, b):
    if a is UNDEF or b is UNDEF:
        return 0
    return D.fcmp('ole', a, b)

def x_check_le(vm, a):
    vm.goal('le', vm.name(a), (a[3], a[4]), None)

def x_cover(vm, a):
    n = vm.name(a)
    vm.st.log.append(('cover', n, vm.st.pc))

def x_obs(vm, a):
    vm.st.log.append(('obs', vm.name(a), a[3]))

def x_param(vm, a):
    return vm.params[vm.string(a[0], a[1])]

_dl = {}
def x_deriv(vm, a):
    y, x = a
    if type(x) is not Poly:
        raise Unsupported('derivative with respect to a term')
    (m, c), = x.t.items()
    v = T.ATOMS[m[0][0]]
    f = _dl.get(v.id)
    if f is None:
        def f(p):
            if type(p) is float:
                return 0.0 if math.isfinite(p) else math.nan
            return D.out(T.deriv(p, v))
        _dl[v.id] = f
    return D.lift(f, y)

def x_la_set(vm, a):
    st = vm.st
    st.la_mode = a[0]
    n = {2: 20, 3: 10, 4: 20}.get(a[0], 0)
    st.la_vals = tuple(D.lift(_tofloat, vm.load(a[1] + 8 * k, 8)) for k in range(n))

def x_la_mode(vm, a):
    st = vm.st
    if st.la_mode == 0 and vm.plain:
        # a real decomposition follows: make every value in memory independent of undecided signs
        for w, v in list(st.mem.items()):
            if type(v) is Node:
                v = st.mem[w] = D.restrict(v, st.pc)
                if type(v) is Node:
                    split(vm, v)
                    return 0
    return st.la_mode

def split(vm, v):
    """Fork on the first sign condition of v and execute the current instruction again."""
    st = vm.st
    if vm.guard != 1 or vm.journal is not None:
        raise Unsupported('split of a conditional value')
    st.frames[-1].ip -= 1
    groups = []
    for b, ch in enumerate((v.n, v.z, v.p)):
        for g in groups:
            if D.same(g[0], ch):
                g[1].append(b)
                break
        else:
            groups.append((ch, [b]))
    alts = [D.select3(v.v, *[int(b in g[1]) for b in range(3)]) for g in groups]
    live = []
    for c in alts:
        n = D.band(st.pc, c)
        if not _isfalse(n):
            live.append((c, n))
    if len(live) > 1 and vm.prune:
        live = [x for x in live if vm.prune(x[1])]
    if not live:
        raise PathEnd('infeasible')
    vm.forks += len(live) - 1
    for c, _ in live[1:]:
        vm.pending.append((st.copy(), _assume_only(c), None))
    vm.assume(live[0][0])

def x_la_limit(vm, a):
    vm.st.la_limit = a[0]

def x_allow_panic(vm, a):
    vm.st.allow_panic = bool(a[0])

def x_la_get(vm, a):
    """entry of the k-th linear system: what 0 = A[i,j], 1 = b[i], 2 = x[i]"""
    k, what, i, j = a
    n, A, b, x = vm.st.la_hist[k]
    return A[i + j * n] if what == 0 else b[i] if what == 1 else x[i]

def x_rounding(vm, a):
    if type(a[0]) is not Poly:
        vm.st.round = T.ROUND = None
        return
    (m, c), = a[0].t.items()
    vm.st.round = T.ROUND = m[0][0]

def x_fresh(vm, a):
    n = vm.name(a)
    x = a[3]
    if type(x) is float:
        return x
    lo, hi = T.interval(x) if type(x) is Poly else (-math.inf, math.inf)
    vm.st.fresh = dict(vm.st.fresh)
    vm.st.fresh[n] = x
    return T.var(n, lo, hi)

def x_la(vm, a):
    kind, n, pa, pb, px = a
    st = vm.st
    A = [D.lift(_tofloat, vm.load(pa + 8 * k, 8)) for k in range(n * n)]
    b = [D.lift(_tofloat, vm.load(pb + 8 * k, 8)) for k in range(n)]
    k = st.la_calls
    st.la_calls += 1
    if st.la_mode == 3:
        x = list(st.la_vals[:n])
    elif st.la_mode == 2:
        key = [v for v in b if not (type(v) is float and v == 0.0)]
        x = [D.lift(uf_leaf(vm, 'la.%d' % i, st.la_vals[i], st.la_vals[10 + i]), *key) for i in range(n)]
    elif st.la_mode == 4:
        x = [T.var('la.%d.%d' % (k, i), st.la_vals[i], st.la_vals[10 + i]) for i in range(n)]
        for i in range(n):
            st.vars['la.%d.%d' % (k, i)] = (st.la_vals[i], st.la_vals[10 + i])
    elif st.la_mode == 1:
        key = tuple(D.key(v) for v in A + b)
        i = st.la_known.get(key)
        if i is None:
            i = len(st.la_known)
            if st.la_limit and i >= st.la_limit:
                raise PathEnd('limit')
            st.la_known[key] = i
            x = [T.of_atom(T.atom('la', 'x.%d.%d' % (i, j), ())) for j in range(n)]
            st.hyps.append((A, b, x))
        x = [T.of_atom(T.atom('la', 'x.%d.%d' % (i, j), ())) for j in range(n)]
    else:
        raise Unsupported('linear algebra mode')
    for i in range(n):
        vm.store1(px + 8 * i, 8, x[i], 1)
    st.la_hist.append((n, A, b, x))
    return 1
