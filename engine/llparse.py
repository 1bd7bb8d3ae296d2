"""Parser for the textual LLVM IR that rustc emits; functions are parsed on first use."""
import math, re, struct

TOK = re.compile(r'''c"(?:[^"\\]|\\.)*"|[%@]"(?:[^"\\]|\\.)*"|[%@][-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*"|!"[^"]*"|![-a-zA-Z$._0-9]*|\#[0-9]+|
  [+-](?:inf|qnan|snan|nan)(?:\(0x[0-9A-Fa-f]+\))?|-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|f?0x[HKLMR]?[0-9A-Fa-f]+|-?[0-9]+|\.\.\.|[a-zA-Z_$.][-a-zA-Z$._0-9]*:?|[()\[\]{}<>,=*|:]''', re.X)

class ParseError(Exception):
    pass

def tokens(s):
    return TOK.findall(s)

# types: ('i', bits), 'double', 'float', 'ptr', 'void', ('s', packed, [types]), ('a', n, type), 'metadata'
def parse_type(t, i, named):
    k = t[i]
    if k[0] == 'i' and k[1:].isdigit():
        return ('i', int(k[1:])), i + 1
    if k in ('double', 'float', 'ptr', 'void', 'metadata', 'label', 'half'):
        return k, i + 1
    if k == '[':
        n = int(t[i + 1])
        ty, j = parse_type(t, i + 3, named)
        return ('a', n, ty), j + 1
    if k == '<' and t[i + 1] == '{':
        ty, j = parse_type(t, i + 1, named)
        return ('s', True, ty[2]), j + 1
    if k == '<':
        n = int(t[i + 1])
        ty, j = parse_type(t, i + 3, named)
        return ('v', n, ty), j + 1
    if k == '{':
        fs = []
        i += 1
        while t[i] != '}':
            ty, i = parse_type(t, i, named)
            fs.append(ty)
            if t[i] == ',':
                i += 1
        return ('s', False, fs), i + 1
    if k[0] == '%' and k in named:
        return named[k], i + 1
    raise ParseError('type %r' % k)

def align_of(ty):
    if isinstance(ty, str):
        return {'double': 8, 'float': 4, 'ptr': 8, 'half': 2}[ty]
    if ty[0] == 'i':
        n = (ty[1] + 7) // 8
        a = 1
        while a < n:
            a *= 2
        return min(a, 16)
    if ty[0] == 'a':
        return align_of(ty[2])
    if ty[0] == 'v':
        return size_of(ty)
    if ty[1]:
        return 1
    return max([align_of(f) for f in ty[2]] or [1])

def size_of(ty):
    """allocation size"""
    if isinstance(ty, str):
        return {'double': 8, 'float': 4, 'ptr': 8, 'half': 2}[ty]
    if ty[0] == 'i':
        n = (ty[1] + 7) // 8
        a = align_of(ty)
        return (n + a - 1) // a * a
    if ty[0] in ('a', 'v'):
        return ty[1] * size_of(ty[2])
    off = offsets(ty)
    return off[-1]

def store_size(ty):
    if not isinstance(ty, str) and ty[0] == 'i':
        return (ty[1] + 7) // 8
    return size_of(ty)

def offsets(ty):
    """field offsets, then total size"""
    o, out = 0, []
    for f in ty[2]:
        if not ty[1]:
            a = align_of(f)
            o = (o + a - 1) // a * a
        out.append(o)
        o += size_of(f)
    if not ty[1]:
        a = align_of(ty)
        o = (o + a - 1) // a * a
    out.append(o)
    return out

def unescape(s):
    out = bytearray()
    i = 0
    b = s.encode('latin1', 'surrogateescape') if isinstance(s, str) else s
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c)
                i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)

def fp(tok):
    if 'nan' in tok:
        return math.nan
    if tok.endswith('inf'):
        return -math.inf if tok[0] == '-' else math.inf
    if tok.startswith('f0x'):
        return struct.unpack('>d', bytes.fromhex(tok[3:].zfill(16)))[0]
    if tok.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(tok[2:].zfill(16)))[0]
    return float(tok)

ATTR_PAREN = {'align', 'range', 'captures', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'initializes',
              'memory', 'allocsize', 'nofpclass', 'elementtype', 'byref', 'inalloca', 'preallocated', 'vscale_range'}

def skip_paren(t, i):
    if t[i] != '(':
        return i
    d = 0
    while True:
        if t[i] == '(':
            d += 1
        elif t[i] == ')':
            d -= 1
            if d == 0:
                return i + 1
        i += 1

VALUE_WORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'inttoptr', 'getelementptr', 'ptrtoint', 'none',
               'bitcast', 'addrspacecast', 'add', 'sub', 'xor', 'splat', 'inf', 'nan', 'qnan', 'asm'}

def is_value(k):
    return k[0] in '%@-+0123456789[{<' or k[0] == 'c' and k[1:2] == '"' or k in VALUE_WORDS or k.startswith('f0x')

def skip_attrs(t, i):
    while not is_value(t[i]):
        k = t[i]
        i += 1
        if t[i] == '(':
            i = skip_paren(t, i)
        elif k == 'align' and t[i].isdigit():
            i += 1
    return i

class Func:
    __slots__ = ('name', 'params', 'blocks', 'nregs', 'template', 'entry', 'ret', 'addr')

class Block:
    __slots__ = ('name', 'phis', 'code', 'succ', 'index', 'region', 'preds')

class Module:
    def __init__(self, path):
        self.text = {}
        self.decls = set()
        self.globals = {}       # name -> (type, init tokens)
        self.named = {}
        self.funcs = {}
        self.aliases = {}
        cur, lines = None, None
        with open(path, encoding='latin1') as f:
            for line in f:
                if cur is not None:
                    if line.startswith('}'):
                        self.text[cur] = lines
                        cur = None
                    else:
                        lines.append(line)
                elif line.startswith('define'):
                    m = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', line)
                    cur = m.group(1)
                    lines = [line]
                elif line.startswith('declare'):
                    m = re.search(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+)\(', line)
                    self.decls.add(m.group(1))
                elif line.startswith('@'):
                    name, rest = line.split(' = ', 1)
                    self.globals[name] = rest
                elif line.startswith('%') and ' = type ' in line:
                    name, rest = line.split(' = type ', 1)
                    self.named[name] = None
                    self.named[name] = parse_type(tokens(rest), 0, self.named)[0]

    def global_def(self, name):
        """(type, tokens, position of the initialiser) of a global variable"""
        t = tokens(self.globals[name])
        i = 0
        while t[i] not in ('constant', 'global', 'alias'):
            if t[i] == 'external':
                return None
            i += 1
        if t[i] == 'alias':
            raise ParseError('alias')
        ty, i = parse_type(t, i + 1, self.named)
        return ty, t, i
