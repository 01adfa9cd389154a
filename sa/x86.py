"""Abstract transfer functions for the GNU inline assembly used by the library (AT&T syntax).
An instruction without a rule raises Unsupported: the analysis then gives no verdict."""
import re
from dom import V, Ptr, Vec, C, Poly, pconst


class Unsupported(Exception):
    pass


R64 = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)]
SUB = {}
for _r in R64:
    SUB[_r] = (_r, 64)
for _a, _b in (('a', 'rax'), ('b', 'rbx'), ('c', 'rcx'), ('d', 'rdx')):
    SUB['e%sx' % _a] = (_b, 32)
    SUB['%sx' % _a] = (_b, 16)
    SUB['%sl' % _a] = (_b, 8)
for _a in ('si', 'di', 'bp', 'sp'):
    SUB['e' + _a] = ('r' + _a, 32)
    SUB[_a] = ('r' + _a, 16)
    SUB[_a + 'l'] = ('r' + _a, 8)
for _i in range(8, 16):
    SUB['r%dd' % _i] = ('r%d' % _i, 32)
    SUB['r%dw' % _i] = ('r%d' % _i, 16)
    SUB['r%db' % _i] = ('r%d' % _i, 8)


def expand(text):
    """Split into instructions, expanding .macro definitions; returns list of (mnemonic, [operands])."""
    text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
    lines = []
    for raw in re.split(r'[;\n]', text):
        s = raw.split('#')[0].strip() if not raw.strip().startswith('#') else ''
        if s:
            lines.append(s)
    macros = {}
    out = []

    def emit(lines, depth=0):
        if depth > 20:
            raise Unsupported('macro recursion')
        i = 0
        while i < len(lines):
            s = lines[i]
            i += 1
            mn = s.split(None, 1)[0]
            rest = s[len(mn):].strip()
            if mn == '.macro':
                ps = [x for x in re.split(r'[,\s]+', rest) if x]
                body = []
                while i < len(lines) and lines[i].split(None, 1)[0] != '.endm':
                    body.append(lines[i])
                    i += 1
                i += 1
                macros[ps[0]] = (ps[1:], body)
            elif mn == '.purgem':
                macros.pop(rest, None)
            elif mn in macros:
                ps, body = macros[mn]
                args = [a.strip() for a in split_ops(rest)] if rest else []
                sub = []
                for l in body:
                    for p, a in sorted(zip(ps, args), key=lambda x: -len(x[0])):
                        l = l.replace('\\' + p, a)
                    if '\\' in l:
                        raise Unsupported('macro argument missing in ' + l)
                    sub.append(l)
                emit(sub, depth + 1)
            elif mn.startswith('.'):
                if mn in ('.align', '.p2align', '.byte'):
                    raise Unsupported(mn)
                raise Unsupported(mn)
            elif mn.endswith(':'):
                raise Unsupported('label ' + mn)
            else:
                out.append((mn, [a.strip() for a in split_ops(rest)] if rest else [], s))
    emit(lines)
    return out


def split_ops(s):
    r, d, cur = [], 0, ''
    for ch in s:
        if ch in '({':
            d += 1
        if ch in ')}':
            d -= 1
        if ch == ',' and d == 0:
            r.append(cur)
            cur = ''
        else:
            cur += ch
    r.append(cur)
    return r


def parse_constraints(cons):
    outs, ins, clob = [], [], []
    for c in cons.split(','):
        if c.startswith('~'):
            clob.append(c[2:-1])
        elif c.startswith('='):
            outs.append(c[1:])
        else:
            ins.append(c)
    return outs, ins, clob


# operand kinds: ('r', reg, width) ('i', int) ('m', disp, base, index, scale) ('o', n, width|None)
def parse_operand(s, arity=None):
    s = s.strip()
    if s.startswith('$$'):
        return ('i', int(s[2:], 0))
    m = re.match(r'^\$\{(\d+):([a-z])\}$', s)
    if m:
        return ('o', int(m.group(1)), {'k': 32, 'q': 64, 'w': 16, 'b': 8}[m.group(2)])
    m = re.match(r'^\$(\d+)$', s)
    if m:
        return ('o', int(m.group(1)), None)
    m = re.match(r'^([-+0-9a-fA-Fx*]*)\((.*)\)$', s)
    if m:
        parts = [p.strip() for p in m.group(2).split(',')]
        disp = eval(m.group(1), {'__builtins__': {}}) if m.group(1) else 0
        base = parse_operand(parts[0]) if parts[0] else None
        idx = parse_operand(parts[1]) if len(parts) > 1 and parts[1] else None
        sc = int(parts[2]) if len(parts) > 2 else 1
        return ('m', disp, base, idx, sc)
    if s.startswith('%'):
        n = s.lstrip('%')
        if n in SUB:
            return ('r',) + SUB[n]
        m = re.match(r'^[xyz]mm\d+$', n)
        if m:
            return ('x', n)
        raise Unsupported('register ' + s)
    raise Unsupported('operand ' + s)


FLAGW = {'add': 'CZSO', 'adc': 'CZSO', 'sub': 'CZSO', 'sbb': 'CZSO', 'cmp': 'CZSO', 'neg': 'CZSO', 'and': 'CZSO', 'or': 'CZSO', 'xor': 'CZSO', 'test': 'CZSO',
         'imul': 'CZSO', 'mul': 'CZSO', 'shl': 'CZSO', 'shr': 'CZSO', 'sar': 'CZSO', 'shld': 'CZSO', 'shrd': 'CZSO', 'adcx': 'C', 'adox': 'O', 'bt': 'CO', 'btr': 'CO', 'bts': 'CO',
         'clc': 'C', 'stc': 'C', 'inc': 'ZSO', 'dec': 'ZSO', 'cmc': 'C'}
CONDS = {'c': ('C', 1), 'b': ('C', 1), 'nc': ('C', 0), 'ae': ('C', 0), 'nb': ('C', 0), 'z': ('Z', 1), 'e': ('Z', 1), 'nz': ('Z', 0), 'ne': ('Z', 0), 's': ('S', 1), 'ns': ('S', 0), 'o': ('O', 1), 'no': ('O', 0)}
BASES = ['adcx', 'adox', 'mulx', 'shld', 'shrd', 'imul', 'cmov', 'set', 'movabs', 'lea', 'add', 'adc', 'sub', 'sbb', 'cmp', 'neg', 'and', 'or', 'xor', 'test', 'mul', 'shl', 'sal', 'shr', 'sar', 'bts', 'btr', 'bt', 'clc', 'stc', 'cmc', 'inc', 'dec', 'not', 'mov', 'xchg', 'push', 'pop', 'nop', 'vpbroadcast', 'movzb']


def decode(mn):
    """-> (base, cond, width or None)"""
    if mn in ('clc', 'stc', 'cmc', 'nop', 'cld', 'std'):
        return mn, None, None
    if mn.startswith('vpbroadcastq') or mn.startswith('vpbroadcastd'):
        return mn, None, None
    if mn.startswith('cmov') or mn.startswith('set'):
        b = 'cmov' if mn.startswith('cmov') else 'set'
        c = mn[len(b):]
        if c in CONDS:
            return b, c, None
        if c[:-1] in CONDS and c[-1] in 'qlwb':
            return b, c[:-1], {'q': 64, 'l': 32, 'w': 16, 'b': 8}[c[-1]]
        raise Unsupported(mn)
    for b in ('mulx', 'adcx', 'adox'):
        if mn in (b, b + 'q'):
            return b, None, 64
        if mn == b + 'l':
            return b, None, 32
    if mn in ('movabs', 'movabsq'):
        return 'mov', None, 64
    base = {'sal': 'shl'}
    for b in ('shld', 'shrd', 'imul', 'lea', 'add', 'adc', 'sub', 'sbb', 'cmp', 'neg', 'and', 'or', 'xor', 'test', 'mul', 'shl', 'sal', 'shr', 'sar', 'bts', 'btr', 'bt', 'inc', 'dec', 'not', 'mov', 'xchg', 'push', 'pop', 'bswap', 'rol', 'ror'):
        if mn == b:
            return base.get(b, b), None, None
        if mn[:-1] == b and mn[-1] in 'qlwb':
            return base.get(b, b), None, {'q': 64, 'l': 32, 'w': 16, 'b': 8}[mn[-1]]
    raise Unsupported('instruction ' + mn)


_pc = {}


def parse(text):
    if text not in _pc:
        r = []
        for mn, ops, src in expand(text):
            b, c, w = decode(mn)
            r.append((b, c, w, [parse_operand(o) for o in ops], src))
        _pc[text] = r
    return _pc[text]


def reads_writes(ins):
    """(reads, writes) as index sets over operands plus implicit registers, for one decoded instruction."""
    b, c, w, ops, src = ins
    R, W, ir, iw = set(), set(), set(), set()
    n = len(ops)
    if b in ('clc', 'stc', 'cmc', 'nop'):
        pass
    elif b == 'mov' or b == 'lea':
        R, W = {0}, {1}
    elif b.startswith('vpbroadcast'):
        R, W = {0}, {1}
    elif b == 'mulx':
        R, W, ir = {0}, {1, 2}, {'rdx'}
    elif b == 'mul' or (b == 'imul' and n == 1):
        R, ir, iw = {0}, {'rax'}, {'rax', 'rdx'}
    elif b == 'imul' and n == 3:
        R, W = {0, 1}, {2}
    elif b in ('cmp', 'test', 'bt'):
        R = set(range(n))
    elif b in ('neg', 'not', 'inc', 'dec', 'bswap'):
        R, W = {0}, {0}
    elif b == 'set':
        W = {0}
    elif b == 'xchg':
        R, W = {0, 1}, {0, 1}
    elif b == 'push':
        R = {0}
    elif b == 'pop':
        W = {0}
    elif b == 'cmov':
        R, W = {0, 1}, {1}
    elif b == 'xor' and n == 2 and ops[0] == ops[1]:
        W = {1}
    elif b in ('shl', 'shr', 'sar', 'rol', 'ror') and n == 1:
        R, W = {0}, {0}
    else:
        R, W = set(range(n)), {n - 1}
    return R, W, ir, iw


class Machine:
    def __init__(self, eng, mem, ins):
        self.eng, self.dom, self.mem, self.ins = eng, eng.dom, mem, ins
        self.regs = {}
        self.fl = {}
        self.opv = {}
        self.opw = {}

    # -- operands
    def width(self, ops, w):
        if w:
            return w
        for o in ops:
            if o[0] == 'r':
                return o[2]
        for o in ops:
            if o[0] == 'o':
                return o[2] or self.opw.get(o[1], 64)
        return 64

    def regval(self, o):
        if o[0] == 'r':
            v = self.regs.get(o[1])
            if v is None:
                return self.dom.top(64, 0, True, 'reg')
            return v
        return self.opv[o[1]]

    def addr(self, o):
        _, disp, base, idx, sc = o
        v = self.regval(base) if base else C(0)
        if idx:
            i = self.dom.mul(self.regval(idx), C(sc))
            v = self.eng.ptradd(v, i)
        return self.eng.ptradd(v, C(disp))

    def get(self, o, w):
        d = self.dom
        if o[0] == 'i':
            return C(o[1])
        if o[0] == 'm':
            return self.eng.load(self.mem, self.addr(o), w // 8, self.ins)
        v = self.regval(o)
        if isinstance(v, Ptr):
            return v
        if w < 64 and isinstance(v, V):
            return d.bits(v, 0, w, 64)
        return v

    def put(self, o, v, w):
        d = self.dom
        if o[0] == 'm':
            self.eng.store(self.mem, self.addr(o), v, w // 8, self.ins)
            return
        if isinstance(v, V):
            v = d.nu(v, w)
        if w < 32:
            old = self.regval(o)
            hi = d.band(old, C((1 << 64) - (1 << w)), 64) if isinstance(old, V) else d.top(64)
            v = d.add(hi, v)
        if o[0] == 'r':
            self.regs[o[1]] = v
        else:
            self.opv[o[1]] = v

    def flag(self, f):
        v = self.fl.get(f)
        if v is None:
            return self.dom.top(1, 0, True, 'flag')
        if isinstance(v, tuple):
            k, x, w = v
            if k == 'z':
                v = self.eng.iszero(x, w)
            elif k == 's':
                v = self.dom.lshr(x, w - 1, w)
            else:
                v = self.dom.top(1, x.t, False, 'flag')
            self.fl[f] = v
        return v

    def setzs(self, r, w):
        self.fl['Z'] = ('z', r, w)
        self.fl['S'] = ('s', r, w)

    def asint(self, v):
        if isinstance(v, Ptr):
            return self.dom.top(64, v.t, v.u)
        return v

    def addc(self, n, w):
        """wrap n to w bits; returns (value, carry)"""
        d = self.dom
        r = d.nu(n, w)
        if r is n:
            return n, C(0)
        if n.p is not None and r.p is not None:
            # carry = (n - r) / 2^w
            q = n.p.add(r.p, -1)
            q = Poly({m: c >> w for m, c in q.d.items()})
            lo, hi = d.prange(q.d)
            lo = max(lo, n.lo >> w)
            hi = min(hi, n.hi >> w)
            return r, V(lo, hi, q, None, n.t, n.u)
        lo, hi = n.lo >> w, n.hi >> w
        return r, d.fresh(lo, hi, 'cf', n.t, n.u)

    def run(self, prog):
        for ins in prog:
            self.step(*ins)

    def step(self, b, cond, w, ops, src):
        d = self.dom
        if b == 'nop':
            return
        if b in ('clc', 'stc'):
            self.fl['C'] = C(0 if b == 'clc' else 1)
            return
        if b == 'cmc':
            self.fl['C'] = d.sub(C(1), self.flag('C'))
            return
        if b.startswith('vpbroadcast'):
            ew = 64 if b.endswith('q') else 32
            if ops[0][0] == 'm':
                v = self.eng.load(self.mem, self.addr(ops[0]), ew // 8, self.ins)
            else:
                v = self.regval(ops[0])
                if not isinstance(v, Vec):
                    raise Unsupported(src)
                v = d.as_ew(v, ew).e[0]
            self.opv[ops[1][1]] = Vec(ew, [v] * (256 // ew))
            return
        w = self.width(ops, w)
        if b == 'mov':
            self.put(ops[1], self.get(ops[0], w), w)
            return
        if b == 'lea':
            self.put(ops[1], self.addr(ops[0]), w)
            return
        if b == 'cmov':
            f, pol = CONDS[cond]
            c = self.flag(f)
            if not pol:
                c = d.sub(C(1), c)
            x, y = self.get(ops[0], w), self.get(ops[1], w)
            self.put(ops[1], self.eng.select(c, x, y, w), w)
            return
        if b == 'set':
            f, pol = CONDS[cond]
            c = self.flag(f)
            self.put(ops[0], c if pol else d.sub(C(1), c), 8)
            return
        if b == 'xchg':
            x, y = self.get(ops[0], w), self.get(ops[1], w)
            self.put(ops[0], y, w)
            self.put(ops[1], x, w)
            return
        if b in ('add', 'sub') and any(isinstance(self.get(o, w), Ptr) for o in ops):
            x, y = self.get(ops[0], w), self.get(ops[1], w)
            if b == 'sub':
                x = d.neg(x)
            self.put(ops[1], self.eng.ptradd(y, x), w)
            self.fl = {}
            return
        G = lambda o: self.asint(self.get(o, w))
        if b in ('add', 'adc', 'adcx', 'adox', 'sub', 'sbb', 'cmp'):
            x, y = G(ops[0]), G(ops[1])
            if b in ('sub', 'sbb', 'cmp') and b != 'sbb' and ops[0] == ops[1]:
                n = C(0)
            elif b in ('add', 'adc', 'adcx', 'adox'):
                n = d.add(y, x if x.lo >= 0 else d.nu(x, w))
            else:
                n = d.sub(y, x if x.lo >= 0 else d.nu(x, w))
            cf = None
            if b in ('adc', 'adcx', 'sbb'):
                cf = self.flag('C')
            elif b == 'adox':
                cf = self.flag('O')
            if cf is not None:
                n = d.add(n, cf) if b != 'sbb' else d.sub(n, cf)
            r, c = self.addc(n, w)
            if b in ('sub', 'sbb', 'cmp'):
                c = d.neg(c)
            if b == 'adox':
                self.fl['O'] = c
            else:
                self.fl['C'] = c
                if b != 'adcx':
                    self.fl['O'] = ('o', r, w)
                    self.setzs(r, w)
            if b == 'cmp':
                if x.p is not None and y.p is not None:
                    self.fl['Z'] = ('z', n, w)
                return
            self.put(ops[1], r, w)
            return
        if b in ('and', 'or', 'xor', 'test'):
            x, y = G(ops[0]), G(ops[1])
            if b == 'xor' and ops[0] == ops[1]:
                r = C(0)
            elif ops[0] == ops[1]:
                r = y
            else:
                r = {'and': d.band, 'test': d.band, 'or': d.bor, 'xor': d.bxor}[b](y, x, w)
            r = d.nu(r, w)
            self.fl['C'] = C(0)
            self.fl['O'] = C(0)
            self.setzs(r, w)
            if b != 'test':
                self.put(ops[1], r, w)
            return
        if b == 'neg':
            y = G(ops[0])
            r, c = self.addc(d.neg(y), w)
            self.fl['C'] = d.neg(c)
            self.fl['O'] = ('o', r, w)
            self.setzs(r, w)
            self.put(ops[0], r, w)
            return
        if b == 'not':
            self.put(ops[0], d.nu(d.bnot(G(ops[0]), w), w), w)
            return
        if b in ('inc', 'dec'):
            y = G(ops[0])
            r = d.nu(d.add(y, C(1 if b == 'inc' else -1)), w)
            self.fl['O'] = ('o', r, w)
            self.setzs(r, w)
            self.put(ops[0], r, w)
            return
        if b == 'mulx':
            x = d.nu(G(ops[0]), w)
            y = d.nu(self.asint(self.get(('r', 'rdx', w), w)), w)
            lo, hi = self.wide(x, y, w)
            self.put(ops[1], lo, w)
            self.put(ops[2], hi, w)
            return
        if b == 'mul' or (b == 'imul' and len(ops) == 1):
            if b == 'imul':
                raise Unsupported(src)
            x = d.nu(G(ops[0]), w)
            y = d.nu(self.asint(self.get(('r', 'rax', w), w)), w)
            lo, hi = self.wide(x, y, w)
            self.put(('r', 'rax', w), lo, w)
            self.put(('r', 'rdx', w), hi, w)
            self.fl = {f: ('o', lo, w) for f in 'CZSO'}
            return
        if b == 'imul':
            x, y = G(ops[0]), G(ops[1])
            n = d.mul(x, y)
            r = d.nu(n, w)
            self.fl = {f: ('o', r, w) for f in 'CZSO'}
            if n.lo >= -(1 << (w - 1)) and n.hi < (1 << (w - 1)) and x.lo >= -(1 << (w - 1)) and x.hi < (1 << (w - 1)) and y.lo >= -(1 << (w - 1)) and y.hi < (1 << (w - 1)):
                self.fl['C'] = self.fl['O'] = C(0)
            self.put(ops[-1], r, w)
            return
        if b in ('shl', 'shr', 'sar'):
            k = self.get(ops[0], 8) if len(ops) == 2 else C(1)
            o = ops[-1]
            if not (isinstance(k, V) and k.isc()):
                raise Unsupported(src + ' by a variable')
            k = k.lo & (63 if w == 64 else 31)
            y = G(o)
            if k == 0:
                return
            if b == 'shl':
                y = d.nu(y, w)
                r, c = self.addc(d.shl(y, k), w)
                self.fl['C'] = c if k == 1 else d.bits(y, w - k, w - k + 1, w)
            elif b == 'shr':
                r = d.lshr(y, k, w)
                self.fl['C'] = d.bits(y, k - 1, k, w)
            else:
                r = d.nu(d.ashr(y, k, w), w)
                self.fl['C'] = d.bits(y, k - 1, k, w)
            self.fl['O'] = ('o', r, w)
            self.setzs(r, w)
            self.put(o, r, w)
            return
        if b == 'bswap':
            y = G(ops[0])
            r = None
            for i in range(w // 8):
                x = d.shl(d.bits(y, 8 * i, 8 * i + 8, w), w - 8 - 8 * i)
                r = x if r is None else d.add(r, x)
            self.put(ops[0], V(r.lo, min(r.hi, (1 << w) - 1), r.p, None, r.t, r.u) if type(r) is V else r, w)
            return
        if b in ('rol', 'ror'):
            k = self.get(ops[0], 8) if len(ops) == 2 else C(1)
            if not (isinstance(k, V) and k.isc()):
                raise Unsupported(src + ' by a variable')
            k = k.lo % w
            if b == 'ror':
                k = (w - k) % w
            y = d.nu(G(ops[-1]), w)
            r = d.add(d.shl(d.bits(y, 0, w - k, w), k), d.lshr(y, w - k, w)) if k else y
            self.fl.pop('C', None)
            self.fl.pop('O', None)
            self.put(ops[-1], V(r.lo, min(r.hi, (1 << w) - 1), r.p, None, r.t, r.u), w)
            return
        if b in ('shld', 'shrd'):
            k = self.get(ops[0], 8)
            if not k.isc():
                raise Unsupported(src)
            k = k.lo & 63
            s, y = d.nu(G(ops[1]), w), d.nu(G(ops[2]), w)
            if b == 'shld':
                r = d.add(d.shl(d.bits(y, 0, w - k, w), k), d.lshr(s, w - k, w))
                self.fl['C'] = d.bits(y, w - k, w - k + 1, w)
            else:
                r = d.add(d.lshr(y, k, w), d.shl(d.bits(s, 0, k, w), w - k))
                self.fl['C'] = d.bits(y, k - 1, k, w)
            r = V(max(0, r.lo), min(r.hi, (1 << w) - 1), r.p, None, r.t, r.u)
            self.fl['O'] = ('o', r, w)
            self.setzs(r, w)
            self.put(ops[2], r, w)
            return
        if b in ('bt', 'btr', 'bts'):
            k = self.get(ops[0], 8)
            if not k.isc() or ops[1][0] == 'm':
                raise Unsupported(src)
            k = k.lo & (w - 1)
            y = G(ops[1])
            bit = d.bits(y, k, k + 1, w)
            self.fl['C'] = bit
            self.fl.pop('O', None)
            # ZF is unaffected; SF, OF, AF, PF undefined
            if b == 'btr':
                self.put(ops[1], d.band(y, C(((1 << w) - 1) & ~(1 << k)), w), w)
            elif b == 'bts':
                self.put(ops[1], d.bor(y, C(1 << k), w), w)
            return
        raise Unsupported(src)

    def wide(self, x, y, w):
        d = self.dom
        n = d.mul(x, y)
        t, u = n.t, n.u
        s = 1 << w
        if n.hi < s:
            return n, C(0)
        if n.p is None or not d.pm:
            return V(0, s - 1, None, None, t, u), V(0, n.hi >> w, None, None, t, u)
        q = d.floor(n.p, w, n.lo, n.hi, 'h')
        return V(0, s - 1, n.p.add(q, -s), None, t, u), V(n.lo >> w, n.hi >> w, q, None, t, u)
