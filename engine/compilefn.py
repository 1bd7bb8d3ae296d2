"""Turn the text of one LLVM function into closures over a register list."""
import re
import dd as D
from llparse import *

class Unsupported(Exception):
    pass

def mask(n):
    return (1 << n) - 1

def signed(x, n):
    return x - (1 << n) if x >> (n - 1) & 1 else x

# ---- integer leaf operations (cached per width so that lift can memoise them)
_ops = {}
def intop(name, n):
    k = (name, n)
    f = _ops.get(k)
    if f is None:
        f = _ops[k] = _intop(name, n)
    return f

def _bits_case(name, a, b):
    """Operations on the bit pattern of a symbolic double."""
    if isinstance(a, D.Bits):
        p = a.x
        if name == 'ashr' and b == 63:
            return D.sign(p, mask(64), 0, 0)
        if name == 'lshr' and b == 63:
            return D.sign(p, 1, 0, 0)
        if name == 'xor':
            if b == 0 or b == mask(63):
                return a        # total order key of a number of that sign
            if b == 1 << 63:
                return D.bits(D.fneg(p))
        if name == 'and':
            if b == mask(63):
                return D.lift(D.bits, D.fabs(p))
            if b == mask(64):
                return a
            if b == 1 << 63:
                return D.sign(p, 1 << 63, 0, 0)
        if name == 'or' and b == 0:
            return a
        if name in ('add', 'sub') and b == 0:
            return a
    elif isinstance(b, D.Bits) and name in ('xor', 'and', 'or'):
        return _bits_case(name, b, a)
    raise Unsupported('%s on the bits of a symbolic double' % name)

def _intop(name, n):
    M = mask(n)
    def wrap(f):
        def g(a, b):
            if type(a) is not int or type(b) is not int:
                if a is D.UNDEF or b is D.UNDEF:
                    return D.UNDEF
                return _bits_case(name, a, b)
            return f(a, b)
        return g
    sg = lambda x: signed(x, n)
    def sdiv(a, b):
        a, b = sg(a), sg(b)
        if b == 0:
            return 0
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & M
    def srem(a, b):
        a, b = sg(a), sg(b)
        if b == 0:
            return 0
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & M
    table = {
        'add': lambda a, b: (a + b) & M, 'sub': lambda a, b: (a - b) & M, 'mul': lambda a, b: (a * b) & M,
        'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
        'shl': lambda a, b: (a << b) & M if b < n else 0, 'lshr': lambda a, b: a >> b if b < n else 0,
        'ashr': lambda a, b: (sg(a) >> min(b, n - 1)) & M,
        'udiv': lambda a, b: a // b if b else 0, 'urem': lambda a, b: a % b if b else 0, 'sdiv': sdiv, 'srem': srem,
    }
    return wrap(table[name])

def icmp(op, n):
    k = ('icmp', op, n)
    f = _ops.get(k)
    if f is not None:
        return f
    sg = lambda x: signed(x, n)
    table = {
        'eq': lambda a, b: int(a == b), 'ne': lambda a, b: int(a != b),
        'ult': lambda a, b: int(a < b), 'ule': lambda a, b: int(a <= b), 'ugt': lambda a, b: int(a > b), 'uge': lambda a, b: int(a >= b),
        'slt': lambda a, b: int(sg(a) < sg(b)), 'sle': lambda a, b: int(sg(a) <= sg(b)),
        'sgt': lambda a, b: int(sg(a) > sg(b)), 'sge': lambda a, b: int(sg(a) >= sg(b)),
    }
    g = table[op]
    def h(a, b):
        if type(a) is int and type(b) is int:
            return g(a, b)
        if a is D.UNDEF or b is D.UNDEF:
            return D.UNDEF
        return icmp_bits(op, a, b)
    _ops[k] = h
    return h

def icmp_bits(op, a, b):
    """Comparison of total order keys / bit patterns of doubles."""
    x = a.x if isinstance(a, D.Bits) else key_to_float(a)
    y = b.x if isinstance(b, D.Bits) else key_to_float(b)
    if op in ('eq', 'ne'):
        if x is None or y is None:
            return int(op == 'ne')
        return D.fcmp('o' + op, x, y)
    if op[0] == 's':
        if x is None or y is None:
            raise Unsupported('comparison of double bits with an integer')
        return D.fcmp('o' + {'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge'}[op], x, y)
    raise Unsupported('icmp %s on the bits of a symbolic double' % op)

def key_to_float(k):
    """The double whose total order key (or bits, if positive) is the integer k"""
    s = signed(k, 64)
    if s < 0:
        k = (k ^ mask(63)) & mask(64)
    return tofloat_int(k)

def tofloat_int(k):
    return struct.unpack('<d', struct.pack('<Q', k))[0]

def tofloat(x):
    t = type(x)
    if t is int:
        return tofloat_int(x)
    if t is D.Bits:
        return x.x
    return x

def toint(x):
    t = type(x)
    if t is float or t is D.Poly:
        return D.bits(x)
    return x

_trunc = {}
def trunc(n):
    f = _trunc.get(n)
    if f is None:
        M = mask(n)
        def f(a):
            if type(a) is int:
                return a & M
            if a is D.UNDEF:
                return a
            if type(a) is D.Bits and n == 64:
                return a
            raise Unsupported('truncation of the bits of a symbolic double')
        _trunc[n] = f
    return f
_sext = {}
def sext(n, m):
    f = _sext.get((n, m))
    if f is None:
        def f(a):
            return a if a is D.UNDEF else signed(a, n) & mask(m)
        _sext[(n, m)] = f
    return f

_fcmp = {}
def fcmp(op):
    f = _fcmp.get(op)
    if f is None:
        if op == 'true':
            f = lambda a, b: 1
        elif op == 'false':
            f = lambda a, b: 0
        else:
            f = lambda a, b: D.UNDEF if (a is D.UNDEF or b is D.UNDEF) else D.fcmp(op, a, b)
        _fcmp[op] = f
    return f

def _u(f):
    def g(a, b):
        if a is D.UNDEF or b is D.UNDEF:
            return D.UNDEF
        return f(a, b)
    return g
def _u1(f):
    def g(a):
        return D.UNDEF if a is D.UNDEF else f(a)
    return g
FOPS = {k: _u(v) for k, v in {'fadd': D.fadd, 'fsub': D.fsub, 'fmul': D.fmul, 'fdiv': D.fdiv}.items()}

def frem(a, b):
    import interp
    return interp.fmod(a, b)
FOPS['frem'] = _u(frem)
FNEG = _u1(D.fneg)
def si2f(n):
    f = _ops.get(('si2f', n))
    if f is None:
        f = _ops[('si2f', n)] = lambda a: D.UNDEF if a is D.UNDEF else float(signed(a, n))
    return f
def ui2f(a):
    return D.UNDEF if a is D.UNDEF else float(a)
def f2i(n, sgn, sat):
    f = _ops.get(('f2i', n, sgn, sat))
    if f is None:
        def f(a):
            if a is D.UNDEF:
                return a
            if type(a) is not float:
                raise Unsupported('conversion of a symbolic double to an integer')
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if sgn else (0, mask(n))
            if a != a:
                return 0
            v = lo if a <= lo else hi if a >= hi else int(a)
            return v & mask(n)
        _ops[('f2i', n, sgn, sat)] = f
    return f

FM_FLAGS = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nuw', 'nsw', 'exact', 'disjoint', 'samesign', 'nneg',
            'inbounds', 'nusw', 'inrange'}

class Compiler:
    def __init__(self, vm, name):
        self.vm = vm
        self.mod = vm.mod
        self.regs = {}
        self.template = []
        self.name = name

    def reg(self, name):
        r = self.regs.get(name)
        if r is None:
            r = self.regs[name] = len(self.template)
            self.template.append(None)
        return r

    def konst(self, v):
        self.template.append(v)
        return len(self.template) - 1

    def operand(self, t, i, ty):
        """(register index, next position); attributes already skipped"""
        k = t[i]
        if k[0] == '%':
            return self.reg(k), i + 1
        v, i = self.vm.const(t, i, ty)
        return self.konst(v), i

    def typed(self, t, i):
        ty, i = parse_type(t, i, self.mod.named)
        i = skip_attrs(t, i)
        r, i = self.operand(t, i, ty)
        return ty, r, i

    def compile(self, lines):
        head = lines[0]
        t = tokens(head[head.index(self.name) + len(self.name):])
        f = Func()
        f.name = self.name
        f.params = []
        i = 1
        nparam = 0
        while t[i] != ')':
            if t[i] == '...':
                i += 1
                continue
            ty, i = parse_type(t, i, self.mod.named)
            while t[i] not in (',', ')') and t[i][0] != '%':
                i += 1
                if t[i] == '(':
                    i = skip_paren(t, i)
            if t[i][0] == '%':
                nm = t[i]
                i += 1
            else:
                nm = '%%%d' % nparam
            if nm[1:].isdigit():
                nparam += 1
            f.params.append(self.reg(nm))
            if t[i] == ',':
                i += 1
        # split into blocks
        blocks, cur = [], None
        k = 1
        while k < len(lines):
            l = lines[k].rstrip('\n')
            k += 1
            if not l.strip():
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                cur = ('%' + m.group(1), [])
                blocks.append(cur)
                continue
            if cur is None:
                cur = ('%%%d' % nparam, [])
                blocks.append(cur)
            s = l.strip()
            if s.startswith('switch') and not s.endswith(']'):
                while ']' not in lines[k]:
                    s += ' ' + lines[k].strip()
                    k += 1
                s += ' ' + lines[k].strip()
                k += 1
            elif ' invoke ' in ' ' + s and ' unwind label ' not in s:
                s += ' ' + lines[k].strip()
                k += 1
            cur[1].append(s)
        f.blocks = []
        byname = {}
        for n, (name, ls) in enumerate(blocks):
            b = Block()
            b.name, b.phis, b.code, b.succ, b.index, b.region, b.preds = name, [], [], [], n, None, []
            byname[name] = b
            f.blocks.append(b)
        self.byname = byname
        for b, (name, ls) in zip(f.blocks, blocks):
            for s in ls:
                if not self.instr(b, s):
                    break
        for b in f.blocks:
            for s in b.succ:
                if b not in s.preds:
                    s.preds.append(b)
        f.entry = f.blocks[0]
        f.template = self.template
        f.nregs = len(self.template)
        return f

    def instr(self, b, s):
        """Compile one instruction; False when the rest of the block cannot be compiled."""
        try:
            t = tokens(s)
            dst = None
            i = 0
            if len(t) > 1 and t[1] == '=':
                dst = self.reg(t[0])
                i = 2
            op = t[i]
            i += 1
            if op in ('tail', 'musttail', 'notail'):
                op = t[i]
                i += 1
            self.emit(b, op, dst, t, i)
            return True
        except (Unsupported, ParseError, KeyError, ValueError, IndexError, NotImplementedError) as e:
            if op in ('landingpad', 'resume', 'cleanup'):
                msg = op
            else:
                msg = '%s: %r' % (s[:120], e)
            b.code.append((self.vm.x_unsupported, None, msg, 'impure'))
            return False

    def emit(self, b, op, dst, t, i):
        vm, C = self.vm, b.code
        while t[i] in FM_FLAGS:
            i += 1
        if op == 'phi':
            ty, i = parse_type(t, i, self.mod.named)
            inc = {}
            while i < len(t) and t[i] == '[':
                r, i = self.operand(t, i + 1, ty)
                inc[t[i + 1]] = r
                i += 3
                if i < len(t) and t[i] == ',':
                    i += 1
            b.phis.append((dst, inc))
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            ty, x, i = self.typed(t, i)
            y, i = self.operand(t, i + 1, ty)
            if isinstance(ty, str) or ty[0] != 'i':
                raise Unsupported('vector ' + op)
            if ty[1] == 1 and op in ('and', 'or', 'xor'):
                C.append(({'and': vm.x_and1, 'or': vm.x_or1, 'xor': vm.x_bin}[op], dst, (intop(op, 1), x, y), 'pure'))
            else:
                C.append((vm.x_bin, dst, (intop(op, ty[1]), x, y), 'pure'))
        elif op in FOPS:
            ty, x, i = self.typed(t, i)
            y, i = self.operand(t, i + 1, ty)
            if ty != 'double':
                raise Unsupported('%s %s' % (op, ty))
            C.append((vm.x_fbin, dst, (FOPS[op], x, y), 'pure'))
        elif op == 'fneg':
            ty, x, i = self.typed(t, i)
            C.append((vm.x_un, dst, (FNEG, x), 'pure'))
        elif op == 'icmp':
            while t[i] in FM_FLAGS:
                i += 1
            cc = t[i]
            i += 1
            while t[i] in FM_FLAGS:
                i += 1
            ty, x, i = self.typed(t, i)
            y, i = self.operand(t, i + 1, ty)
            n = 64 if ty == 'ptr' else ty[1]
            C.append((vm.x_bin, dst, (icmp(cc, n), x, y), 'pure'))
        elif op == 'fcmp':
            while t[i] in FM_FLAGS:
                i += 1
            cc = t[i]
            ty, x, i = self.typed(t, i + 1)
            y, i = self.operand(t, i + 1, ty)
            C.append((vm.x_bin, dst, (fcmp(cc), x, y), 'pure'))
        elif op == 'select':
            _, c, i = self.typed(t, i)
            ty, x, i = self.typed(t, i + 1)
            _, y, i = self.typed(t, i + 1)
            C.append((vm.x_select, dst, (c, x, y), 'pure'))
        elif op in ('zext', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            ty, x, i = self.typed(t, i)
            if op == 'ptrtoint' and t[i] == 'to' and t[i + 1] != 'i64':
                raise Unsupported('ptrtoint')
            C.append((vm.x_freeze if op == 'freeze' else vm.x_mov, dst, x, 'pure'))
        elif op == 'trunc':
            ty, x, i = self.typed(t, i)
            to, i = parse_type(t, i + 1, self.mod.named)
            C.append((vm.x_un, dst, (trunc(to[1]), x), 'pure'))
        elif op == 'sext':
            ty, x, i = self.typed(t, i)
            to, i = parse_type(t, i + 1, self.mod.named)
            C.append((vm.x_un, dst, (sext(ty[1], to[1]), x), 'pure'))
        elif op == 'bitcast':
            ty, x, i = self.typed(t, i)
            to, i = parse_type(t, i + 1, self.mod.named)
            if to == 'double':
                C.append((vm.x_un, dst, (tofloat, x), 'pure'))
            elif ty == 'double':
                C.append((vm.x_un, dst, (toint, x), 'pure'))
            else:
                C.append((vm.x_mov, dst, x, 'pure'))
        elif op in ('sitofp', 'uitofp'):
            ty, x, i = self.typed(t, i)
            C.append((vm.x_un, dst, (si2f(ty[1]) if op == 'sitofp' else ui2f, x), 'pure'))
        elif op in ('fptosi', 'fptoui'):
            ty, x, i = self.typed(t, i)
            to, i = parse_type(t, i + 1, self.mod.named)
            C.append((vm.x_un, dst, (f2i(to[1], op == 'fptosi', False), x), 'pure'))
        elif op == 'alloca':
            ty, i = parse_type(t, i, self.mod.named)
            n = 1
            if t[i:i + 1] == [','] and t[i + 1] != 'align':
                _, i2 = parse_type(t, i + 1, self.mod.named)
                n = int(t[i2])
            C.append((vm.x_alloca, dst, size_of(ty) * n, 'impure'))
        elif op == 'load':
            if t[i] in ('volatile', 'atomic'):
                i += 1
            ty, i = parse_type(t, i, self.mod.named)
            _, p, i = self.typed(t, i + 1)
            if ty == 'double':
                C.append((vm.x_loadf, dst, p, 'pure'))
            elif ty == 'ptr' or ty[0] == 'i':
                n = 8 if ty == 'ptr' else store_size(ty)
                C.append((vm.x_load64 if n == 8 else vm.x_loadn, dst, (p, n, 1 if ty == ('i', 1) else 0), 'pure'))
            else:
                C.append((vm.x_loadagg, dst, (p, ty), 'pure'))
        elif op == 'store':
            if t[i] in ('volatile', 'atomic'):
                i += 1
            ty, v, i = self.typed(t, i)
            _, p, i = self.typed(t, i + 1)
            if ty in ('double', 'ptr') or ty[0] == 'i':
                n = 8 if ty in ('double', 'ptr') else store_size(ty)
                C.append((vm.x_store64 if n == 8 else vm.x_storen, None, (v, p, n), 'store'))
            else:
                C.append((vm.x_storeagg, None, (v, p, ty), 'store'))
        elif op == 'getelementptr':
            while t[i] in FM_FLAGS or t[i] == '(':
                i += 1
            ty, i = parse_type(t, i, self.mod.named)
            _, base, i = self.typed(t, i + 1)
            off, var = 0, []
            cur, first = ty, True
            while i < len(t) and t[i] == ',' and not t[i + 1].startswith('!'):
                ity, r, i = self.typed(t, i + 1)
                kv = self.template[r]
                if first:
                    sz = size_of(cur)
                    first = False
                elif cur[0] == 's':
                    off += offsets(cur)[kv]
                    cur = cur[2][kv]
                    continue
                else:
                    sz = size_of(cur[2])
                    cur = cur[2]
                if isinstance(kv, int):
                    off += signed(kv, ity[1]) * sz
                else:
                    var.append((r, sz, ity[1]))
            if not var:
                C.append((vm.x_gepc, dst, (base, off), 'pure'))
            else:
                C.append((vm.x_gep, dst, (base, off, var), 'pure'))
        elif op == 'extractvalue':
            ty, x, i = self.typed(t, i)
            idx = []
            while i < len(t) and t[i] == ',' and t[i + 1].isdigit():
                idx.append(int(t[i + 1]))
                i += 2
            C.append((vm.x_extract, dst, (x, idx), 'pure'))
        elif op == 'insertvalue':
            ty, x, i = self.typed(t, i)
            _, v, i = self.typed(t, i + 1)
            idx = []
            while i < len(t) and t[i] == ',' and t[i + 1].isdigit():
                idx.append(int(t[i + 1]))
                i += 2
            nf = len(ty[2]) if ty[0] == 's' else ty[1]
            C.append((vm.x_insert, dst, (x, v, idx, nf), 'pure'))
        elif op in ('call', 'invoke'):
            self.call(b, op, dst, t, i)
        elif op == 'br':
            if t[i] == 'label':
                b.succ = [self.byname[t[i + 1]]]
                C.append((vm.x_jump, None, b.succ[0], 'term'))
            else:
                _, c, i = self.typed(t, i)
                a, e = self.byname[t[i + 2]], self.byname[t[i + 5]]
                b.succ = [a, e]
                C.append((vm.x_br, None, (c, a, e), 'term'))
        elif op == 'switch':
            ty, x, i = self.typed(t, i)
            d = self.byname[t[i + 2]]
            i += 4
            cases = {}
            while t[i] != ']':
                _, i = parse_type(t, i, self.mod.named)
                v, i = vm.const(t, i, ty)
                cases[v] = self.byname[t[i + 2]]
                i += 3
            b.succ = list(dict.fromkeys(list(cases.values()) + [d]))
            C.append((vm.x_switch, None, (x, cases, d), 'term'))
        elif op == 'ret':
            if t[i] == 'void':
                C.append((vm.x_ret, None, None, 'ret'))
            else:
                ty, x, i = self.typed(t, i)
                C.append((vm.x_ret, None, x, 'ret'))
        elif op == 'unreachable':
            C.append((vm.x_unreachable, None, None, 'dead'))
        elif op == 'fence':
            pass
        elif op == 'atomicrmw':
            if t[i] == 'volatile':
                i += 1
            what = t[i]
            _, p, i = self.typed(t, i + 1)
            ty, v, i = self.typed(t, i + 1)
            if what[0] == 'f' or ty == 'double':
                raise Unsupported('atomicrmw ' + what)
            C.append((vm.x_rmw, dst, (what, p, v, ty), 'impure'))
        elif op == 'cmpxchg':
            while t[i] in ('volatile', 'weak'):
                i += 1
            _, p, i = self.typed(t, i)
            ty, c, i = self.typed(t, i + 1)
            _, v, i = self.typed(t, i + 1)
            C.append((vm.x_cmpxchg, dst, (p, c, v, ty), 'impure'))
        else:
            raise Unsupported(op)

    def call(self, b, op, dst, t, i):
        vm = self.vm
        # return type and attributes, callee
        while True:
            k = t[i]
            try:
                ty, j = parse_type(t, i, self.mod.named)
                i = j
                break
            except ParseError:
                i += 1
                if t[i] == '(':
                    i = skip_paren(t, i)
                elif k == 'align':
                    i += 1
        if t[i] == '(':     # function type of a variadic call
            i = skip_paren(t, i)
        callee = t[i]
        i += 1
        if callee[0] == '%':
            callee = ('r', self.reg(callee))
        elif callee[0] != '@':
            raise Unsupported('callee ' + callee)
        args = []
        i += 1
        while t[i] != ')':
            if t[i] == 'metadata':
                d = 0
                while not (d == 0 and t[i] in (',', ')')):
                    d += {'(': 1, ')': -1}.get(t[i], 0)
                    i += 1
            else:
                aty, r, i = self.typed(t, i)
                args.append(r)
            if t[i] == ',':
                i += 1
        C = b.code
        kind = 'impure'
        if isinstance(callee, str):
            n = callee[1:].strip('"')
            if n.startswith('llvm.'):
                h = vm.intrinsic(n)
                if h == 'skip':
                    pass
                elif h[0] == 'pure':
                    C.append((vm.x_intr, dst, (h[1], args), 'pure'))
                else:
                    C.append((vm.x_extern, dst, (h[1], args), h[0]))
                if op == 'invoke':
                    raise Unsupported('invoke intrinsic')
                return
            if callee in self.mod.text:
                C.append((vm.x_call, dst, (callee, args), 'impure'))
            else:
                h = vm.extern(n)
                C.append((vm.x_extern, dst, (h, args), 'impure'))
        else:
            C.append((vm.x_callptr, dst, (callee[1], args), 'impure'))
        if op == 'invoke':
            i += 1
            while t[i] != 'to':
                i += 1
            nb = self.byname[t[i + 2]]
            b.succ = [nb]
            C.append((vm.x_jump, None, nb, 'term'))
