"""SHA-512 (streaming and two-way) and SHAKE against FIPS 180-4 and FIPS 202.

The code is interpreted over hdom.HDom with every message byte unknown; the standard is written
below in the same operations; the digests must be the same words.  Compression functions are first
compared with the standard on an unknown state and block; where that succeeds, the longer histories
keep them as one symbol.
"""
import random
import build
from dom import V, Ptr, Vec, C
from interp import Engine, Mem, Obj
from hdom import HDom, H, Unsure, mk, E
from fieldsem import Lost, Wrong

M64 = (1 << 64) - 1


# ------------------------------------------------------------------ constants of the standards
def primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % p for p in r):
            r.append(k)
        k += 1
    return r


def iroot(n, k):
    lo, hi = 0, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


K512 = [iroot(p << 192, 3) & M64 for p in primes(80)]
IV512 = [iroot(p << 128, 2) & M64 for p in primes(8)]
IV384 = [iroot(p << 128, 2) & M64 for p in primes(16)[8:]]


def keccak_tables():
    rot = {}
    x, y = 1, 0
    for t in range(24):
        rot[x, y] = (t + 1) * (t + 2) // 2 % 64
        x, y = y, (2 * x + 3 * y) % 5
    rot[0, 0] = 0
    rc = []
    R = 1
    bit = []
    for t in range(255):
        bit.append(R & 1)
        R = (R << 1) ^ (0x171 if R & 0x80 else 0)
    for i in range(24):
        rc.append(sum(bit[(j + 7 * i) % 255] << ((1 << j) - 1) for j in range(7)))
    return rot, rc


ROT, RC = keccak_tables()


# ------------------------------------------------------------------ the standards, over HDom
class Spec:
    def __init__(self, d, uf):
        self.d = d
        self.uf = uf            # compression functions kept as symbols

    def rotr(self, x, n):
        d = self.d
        return d.add(d.lshr(x, n, 64), d.nu(d.shl(x, 64 - n, 64), 64))

    def xor(self, *a):
        r = a[0]
        for x in a[1:]:
            r = self.d.bxor(r, x, 64)
        return r

    def sum(self, *a):
        r = a[0]
        for x in a[1:]:
            r = self.d.add(r, x)
        return self.d.nu(r, 64)

    def sha_full(self, st, W):
        d = self.d
        W = list(W)
        for t in range(16, 80):
            s1 = self.xor(self.rotr(W[t - 2], 19), self.rotr(W[t - 2], 61), d.lshr(W[t - 2], 6, 64))
            s0 = self.xor(self.rotr(W[t - 15], 1), self.rotr(W[t - 15], 8), d.lshr(W[t - 15], 7, 64))
            W.append(self.sum(s1, W[t - 7], s0, W[t - 16]))
        a, b, c, e4, e, f, g, h = st
        for t in range(80):
            S1 = self.xor(self.rotr(e, 14), self.rotr(e, 18), self.rotr(e, 41))
            ch = d.bxor(d.band(d.bxor(f, g, 64), e, 64), g, 64)
            T1 = self.sum(h, S1, ch, C(K512[t]), W[t])
            S0 = self.xor(self.rotr(a, 28), self.rotr(a, 34), self.rotr(a, 39))
            maj = d.bxor(d.bxor(d.band(a, b, 64), d.band(a, c, 64), 64), d.band(b, c, 64), 64)
            T2 = self.sum(S0, maj)
            h, g, f, e, e4, c, b, a = g, f, e, self.sum(e4, T1), c, b, a, self.sum(T1, T2)
        return [self.sum(x, y) for x, y in zip(st, (a, b, c, e4, e, f, g, h))]

    def keccak_full(self, A):
        d = self.d
        A = {(i % 5, i // 5): x for i, x in enumerate(A)}
        for r in range(24):
            Cx = [self.xor(*[A[x, y] for y in range(5)]) for x in range(5)]
            D = [d.bxor(Cx[(x - 1) % 5], self.rotr(Cx[(x + 1) % 5], 63), 64) for x in range(5)]
            B = {}
            for x in range(5):
                for y in range(5):
                    v = d.bxor(A[x, y], D[x], 64)
                    n = ROT[x, y]
                    B[y, (2 * x + 3 * y) % 5] = self.rotr(v, 64 - n) if n else v
            A = {(x, y): d.bxor(B[x, y], d.band(d.bnot(B[(x + 1) % 5, y], 64), B[(x + 2) % 5, y], 64), 64) for x in range(5) for y in range(5)}
            A[0, 0] = d.bxor(A[0, 0], C(RC[r]), 64)
        return [A[i % 5, i // 5] for i in range(25)]

    def symbol(self, name, n, args):
        ks = tuple(self.d.key(x) for x in args)
        return [self.d.word('uf', (name, i) + ks, M64) for i in range(n)]

    def sha(self, st, W):
        if 'sha' in self.uf:
            return self.symbol('sha', 8, list(st) + list(W))
        return self.sha_full(st, W)

    def keccak(self, A):
        if 'keccak' in self.uf:
            return self.symbol('keccak', 25, A)
        return self.keccak_full(A)

    def be(self, b):
        d = self.d
        r = C(0)
        for i, x in enumerate(b):
            r = d.add(r, d.shl(x, 8 * (len(b) - 1 - i), 64))
        return r

    def le(self, b):
        return self.be(b[::-1])

    def bytes_be(self, w, n=8):
        return [self.d.bits(w, 8 * (n - 1 - i), 8 * (n - i), 64) for i in range(n)]

    def bytes_le(self, w, n=8):
        return self.bytes_be(w, n)[::-1]

    def sha512(self, msg, iv=IV512, state=None, total=None):
        """msg: byte values; state: chaining value before msg; total: length in bytes of the whole message (word)"""
        st = [C(x) for x in iv] if state is None else state
        m = list(msg) + [C(0x80)]
        while len(m) % 128 != 112:
            m.append(C(0))
        d = self.d
        n = C(len(msg)) if total is None else total
        m += self.bytes_be(d.lshr(n, 61, 64)) + self.bytes_be(d.nu(d.shl(n, 3, 64), 64))
        for i in range(0, len(m), 128):
            st = self.sha(st, [self.be(m[i + 8 * j:i + 8 * j + 8]) for j in range(16)])
        return [b for w in st for b in self.bytes_be(w)]

    def shake(self, msg, rate, out):
        d = self.d
        A = [C(0)] * 25
        m = list(msg) + [C(0x1f)]
        while len(m) % rate:
            m.append(C(0))
        m[-1] = d.bxor(m[-1], C(0x80), 8)
        for i in range(0, len(m), rate):
            for j in range(rate // 8):
                A[j] = d.bxor(A[j], self.le(m[i + 8 * j:i + 8 * j + 8]), 64)
            A = self.keccak(A)
        r = []
        while True:
            for j in range(rate // 8):
                r += self.bytes_le(A[j])
            if len(r) >= out:
                return r[:out]
            A = self.keccak(A)


# ------------------------------------------------------------------ the interpreter with choices
class HEngine(Engine):
    def __init__(self, m, d, choices=(), symlen=None):
        Engine.__init__(self, m, d)
        self.choices = list(choices)
        self.taken = []
        self.conds = {}
        self.path = []          # (pred, x, y, w, truth)
        self.symlen = symlen    # atom of the unknown block count, taken as 0 by the control flow
        self.seen = 0           # bits of the length that some decision looked at
        self.oracle = self.decide

    def cmp(self, pred, a, b, w):
        if isinstance(a, H) or isinstance(b, H):
            d = self.dom
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Unsure('an address is compared with a message-dependent word')
            x, y = d.nu(a, w), d.nu(b, w)
            if d.key(x) == d.key(y):
                return C(int(pred in ('eq', 'ule', 'uge', 'sle', 'sge')))
            if not isinstance(x, H) and not isinstance(y, H):
                return Engine.cmp(self, pred, x, y, w)
            if pred[0] == 's' and not (x.hi | y.hi) >> (w - 1):
                pred = 'u' + pred[1:]
            op = pred[1:]
            if pred[0] == 'u':
                if op in ('lt', 'le') and (x.hi < y.lo or (op == 'le' and x.hi <= y.lo)):
                    return C(1)
                if op in ('lt', 'le') and (x.lo > y.hi or (op == 'lt' and x.lo >= y.hi)):
                    return C(0)
                if op in ('gt', 'ge') and (x.lo > y.hi or (op == 'ge' and x.lo >= y.hi)):
                    return C(1)
                if op in ('gt', 'ge') and (x.hi < y.lo or (op == 'gt' and x.hi <= y.lo)):
                    return C(0)
            v = d.fresh(0, 1, 'hcmp')
            (m, _), = v.p.d.items()
            self.conds[m[0]] = (pred, x, y, w)
            return v
        return Engine.cmp(self, pred, a, b, w)

    def iszero(self, x, w):
        if isinstance(x, H):
            return self.cmp('eq', x, C(0), w)
        return Engine.iszero(self, x, w)

    def look(self, x):
        """bits of the unknown length a decided word depends on"""
        d = self.dom

        def go(f, want):
            r = 0
            for m, k in f.items():
                for a, rot in m:
                    kind, data, live = d.ha[a]
                    if a == self.symlen:
                        kk = k | (k >> 64)
                        r |= ((kk >> rot) | (kk << (64 - rot))) & M64
                    elif kind == 'add':
                        top = k.bit_length()
                        for key, c in data[1]:
                            sub = go(dict(key), want)
                            r |= sub
                    elif kind == 'name':
                        r |= go(dict(data), want)
            return r
        return go(d.form(x), 0)

    def truth(self, a):
        pred, x, y, w = self.conds[a]
        d = self.dom
        if self.symlen is not None:
            self.seen |= self.look(x) | self.look(y)
            env = {'memo': {}, 'uf': None, 'base': self.zero}
            p, q = d.value(x, env, w), d.value(y, env, w)
            s = 1 << (w - 1)
            if pred[0] == 's':
                p, q = p - 2 * (p & s), q - 2 * (q & s)
            o = pred if pred in ('eq', 'ne') else pred[1:]
            return {'eq': p == q, 'ne': p != q, 'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[o]
        i = len(self.taken)
        if i >= len(self.choices):
            self.choices.append(True)
        self.taken.append(self.choices[i])
        self.path.append((pred, x, y, w, self.choices[i]))
        if i > 12:
            raise Unsure('too many decisions on message contents')
        return self.choices[i]

    def zero(self, kind, data):
        if kind == 'len':
            return 0
        raise Unsure('a decision mixes the length with message contents')

    def decide(self, c, t):
        d = self.dom
        if c.p is None:
            raise Unsure('a decision that cannot be followed')
        sub = {}
        for m in c.p.d:
            for a in m:
                if a not in self.conds:
                    raise Unsure('a decision that cannot be followed')
                if a not in sub:
                    memo = self.__dict__.setdefault('decided', {})
                    if a not in memo:
                        memo[a] = int(self.truth(a))
                    sub[a] = memo[a]
        return d._subst(c.p.d, sub).get((), 0) & 1

    def select(self, c, x, y, w):
        if isinstance(c, V) and not c.isc() and c.p is not None and all(a in self.conds for m in c.p.d for a in m):
            return x if self.decide(c, None) else y
        return Engine.select(self, c, x, y, w)

    def flat(self, p):
        """addresses: the whole blocks skipped by the control flow are dropped"""
        if not isinstance(p, Ptr) or self.symlen is None:
            return p
        b = {}
        for o, off in p.b.items():
            if isinstance(off, H):
                x = self.dom.nu(off, 64)
                if isinstance(x, H) and self.symshift == 0:
                    x = self.at0(x)
                if isinstance(x, H):
                    f = {m: k for m, k in x.f.items() if m}
                    if set(f) - {frozenset([(self.symlen, self.symshift)])}:
                        raise Unsure('an address depends on message contents')
                    x = C(x.f.get(E, 0))
                off = x
            b[o] = off
        return Ptr(b, p.t, p.u)

    def at0(self, x):
        return C(self.dom.value(x, {'memo': {}, 'uf': None, 'base': self.zero}))

    def ptradd(self, p, i):
        if isinstance(i, H) and self.symlen is not None and self.symshift == 0 and isinstance(p, Ptr):
            i = self.at0(self.dom.nu(i, 64))
        return Engine.ptradd(self, p, i)

    def count_hook(self, n):
        if isinstance(n, H):
            n = self.dom.nu(n, 64)
            if isinstance(n, H):
                if self.symlen is None or self.symshift:
                    raise Unsure('a block of unknown length')
                n = self.at0(n)
        return n

    def load(self, mem, p, size, ins):
        return Engine.load(self, mem, self.flat(p), size, ins)

    def store(self, mem, p, v, size, ins):
        return Engine.store(self, mem, self.flat(p), v, size, ins)


class Machine:
    """One history of calls on unknown message bytes."""

    def __init__(self, cfg, uf, choices=(), symlen=False):
        self.m = build.module(cfg)
        self.d = HDom(polymode=True, maxterms=4000)
        self.uf = uf
        self.spec = Spec(self.d, {x[0] for x in uf})
        self.L = self.d.hatom('len', 0, (1 << 56) - 1) if symlen else None
        self.e = HEngine(self.m, self.d, choices, self.L)
        self.mem = Mem()
        self.e.max_counted = 5000
        for _, fam, fn, order in uf:
            h = getattr(self, 'hook_' + fam)
            self.e.callhook[fn] = (lambda e, mem, args, ins, h=h: h(e, mem, args[::-1], ins)) if order else h
        if symlen:
            self.e.memcpy_hook = lambda mem, dst, src, n, ins: self.copy(mem, dst, src, n, ins)

    def copy(self, mem, dst, src, n, ins):
        a, b = self.e.flat(dst), self.e.flat(src)
        n = self.d.nu(n, 64)
        if isinstance(n, H):
            n = self.e.count_hook(n)
        elif a is dst and b is src:
            return False
        import libc
        h, self.e.memcpy_hook = self.e.memcpy_hook, None
        libc.memcpy(self.e, mem, a, b, n, ins)
        self.e.memcpy_hook = h
        return True

    def obj(self, name, size, cells=None):
        o = Obj(name, size, 'param', 'undef', align=64)
        for i, v in enumerate(cells or ()):
            o.cells[i] = (1, v)
        self.mem.add(o)
        return Ptr({name: C(0)})

    def msg(self, tag, n):
        return [self.d.word('msg', (tag, i), 255) for i in range(n)]

    def words(self, tag, n):
        return [self.d.word('word', (tag, i), M64) for i in range(n)]

    def call(self, fn, *args):
        if fn not in self.m.funcs or self.m.funcs[fn].decl:
            raise Lost('function %s not found' % fn)
        r, self.mem = self.e.call(fn, [C(a) if isinstance(a, int) else a for a in args], self.mem)
        return r

    def bytes(self, p, n, off=0):
        (o, b), = p.b.items()
        ob = self.e.getobj(self.mem, o)
        return [self.d.nu(self.e.rd(ob, b.lo + off + i, 1), 8) for i in range(n)]

    # ---- compression functions as symbols
    def w8(self, mem, p, i):
        v = self.e.load(mem, self.e.ptradd(p, C(i)), 8, None)
        if not isinstance(v, V):
            raise Unsure('an address inside a hash state')
        return self.d.nu(v, 64)

    def swap(self, v):
        return self.spec.be(self.spec.bytes_le(v))

    def put(self, mem, p, i, v):
        self.e.store(mem, self.e.ptradd(p, C(i)), v, 8, None)

    def hook_sha(self, e, mem, args, ins):
        data, st = args
        W = [self.swap(self.w8(mem, data, 8 * i)) for i in range(16)]
        S = [self.w8(mem, st, 8 * i) for i in range(8)]
        for i, v in enumerate(self.spec.symbol('sha', 8, S + W)):
            self.put(mem, st, 8 * i, v)
        return C(0)

    def hook_sha2w(self, e, mem, args, ins):
        st, blk = args
        for lane in range(2):
            W = [self.w8(mem, blk, 16 * i + 8 * lane) for i in range(16)]
            S = [self.w8(mem, st, 16 * i + 8 * lane) for i in range(8)]
            for i, v in enumerate(self.spec.symbol('sha', 8, S + W)):
                self.put(mem, st, 16 * i + 8 * lane, v)
        for i in range(80 * 16 // 8):
            o, off = blk.one()
            self.put(mem, blk, 8 * i, self.d.word('scratch', (len(self.d.ha), i), M64))
        return C(0)

    def hook_keccak(self, e, mem, args, ins):
        st, = args
        S = [self.w8(mem, st, 8 * i) for i in range(25)]
        for i, v in enumerate(self.spec.symbol('keccak', 25, S)):
            self.put(mem, st, 8 * i, v)
        return C(0)


def prove_round(cfg, fam, fn, order):
    """Does the compression function equal the standard's on an unknown state and block?"""
    k = Machine(cfg, ())
    d, s = k.d, k.spec
    if fam == 'keccak':
        A = k.words('A', 25)
        p = k.obj('state', 200)
        for i, v in enumerate(A):
            k.put(k.mem, p, 8 * i, v)
        k.call(fn, p)
        got = [k.w8(k.mem, p, 8 * i) for i in range(25)]
        want = s.keccak_full(A)
    elif fam == 'sha':
        S = k.words('S', 8)
        B = k.msg('B', 128)
        p, q = k.obj('state', 64), k.obj('data', 128, B)
        for i, v in enumerate(S):
            k.put(k.mem, p, 8 * i, v)
        k.call(fn, *((q, p) if order == 0 else (p, q)))
        got = [k.w8(k.mem, p, 8 * i) for i in range(8)]
        want = s.sha_full(S, [s.be(B[8 * i:8 * i + 8]) for i in range(16)])
    else:
        S = [k.words('S%d' % l, 8) for l in range(2)]
        W = [k.words('W%d' % l, 16) for l in range(2)]
        p, q = k.obj('state', 128), k.obj('block', 1280)
        for l in range(2):
            for i in range(8):
                k.put(k.mem, p, 16 * i + 8 * l, S[l][i])
            for i in range(16):
                k.put(k.mem, q, 16 * i + 8 * l, W[l][i])
        k.call(fn, *((p, q) if order == 0 else (q, p)))
        got = [k.w8(k.mem, p, 16 * i + 8 * l) for l in range(2) for i in range(8)]
        want = s.sha_full(S[0], W[0]) + s.sha_full(S[1], W[1])
    return all(d.key(a) == d.key(b) for a, b in zip(got, want)), k


TU = {'sha': 'sha512.c', 'sha2w': 'sha512_2way.c', 'keccak': 'sha3.c'}
_lem = {}


def candidates(cfg, fam):
    """functions of the source file that take only pointers, in the order of the likely ones"""
    m = build.module(cfg)
    r = []
    for n, f in m.funcs.items():
        if f.decl or not (f.file or '').endswith('/' + TU[fam]):
            continue
        tys = [p[1] if isinstance(p, (list, tuple)) and len(p) > 1 and isinstance(p[1], (list, tuple)) else p for p in f.params]
        k = len(f.params)
        if k == (1 if fam == 'keccak' else 2):
            r.append(n)
    return sorted(r, key=lambda n: n not in ('sha3_round', 'sha512_permutation', 'KeccakF2'))


def lemmas(cfg, fam):
    """compression functions of a family that may be kept as symbols: (symbol, function, argument order)"""
    if (cfg, fam) not in _lem:
        r = []
        for fn in candidates(cfg, fam):
            for order in ((0,) if fam == 'keccak' else (0, 1)):
                try:
                    if prove_round(cfg, fam, fn, order)[0]:
                        r.append(('keccak' if fam == 'keccak' else 'sha', fam, fn, order))
                        break
                except Exception:
                    pass
            if r:
                break
        _lem[cfg, fam] = tuple(r)
    return _lem[cfg, fam]


# ------------------------------------------------------------------ histories
def compare(k, got, want):
    """indices at which the computed bytes are not the standard's"""
    bad = [i for i, (a, b) in enumerate(zip(got, want)) if k.d.key(a) != k.d.key(b)]
    return bad


def atoms_in(d, v, seen):
    for m in d.form(v):
        for a, _ in m:
            if a in seen:
                continue
            seen.add(a)
            kind, data, live = d.ha[a]
            subs = []
            if kind == 'add':
                subs = [x for x, _ in data[1]]
            elif kind == 'name':
                subs = [data]
            elif kind == 'uf':
                subs = data[2:]
            for f in subs:
                atoms_in(d, mk(dict(f)), seen)
    return seen


def witness(k, got, want, bad):
    """a message on which the extracted value and the standard's differ: 'no' | 'maybe' | description"""
    d = k.d
    ats = set()
    for i in bad:
        atoms_in(d, got[i], ats)
    kinds = {d.ha[a][0] for a in ats}
    if 'poly' in kinds:
        return 'maybe'
    rnd = random.Random(1)
    n = 0
    for trial in range(24):
        fix = {}
        if k.e.path:
            # messages that satisfy simple equalities on the path
            for pred, x, y, w, t in k.e.path:
                if (pred == 'eq') == t and pred in ('eq', 'ne'):
                    u, c = (x, y) if y.isc() else (y, x)
                    if c.isc() and isinstance(u, H) and all(len(m) == 1 for m in u.f):
                        for m, b in u.f.items():
                            (a, r), = m
                            val = c.lo & b
                            val = ((val >> r) | (val << (64 - r))) & M64 if r else val
                            fix[a] = fix.get(a, 0) | val
        vals = {}

        def base(kind, data, vals=vals):
            if (kind, data) not in vals:
                vals[kind, data] = rnd.getrandbits(64) if trial % 3 else rnd.choice((0, 1, M64, 0x80))
            return vals[kind, data]

        def uf(name, i, args):
            raise Unsure('symbol')
        env = {'memo': dict(fix), 'uf': uf, 'base': base}
        try:
            ok = True
            for pred, x, y, w, t in k.e.path:
                p, q = d.value(x, env, w), d.value(y, env, w)
                if pred[0] == 's':
                    s = 1 << (w - 1)
                    p, q = p - 2 * (p & s), q - 2 * (q & s)
                o = pred if pred in ('eq', 'ne') else pred[1:]
                if {'eq': p == q, 'ne': p != q, 'lt': p < q, 'le': p <= q, 'gt': p > q, 'ge': p >= q}[o] != t:
                    ok = False
                    break
            if not ok:
                continue
            n += 1
            for i in bad[:8]:
                a, b = d.value(got[i], env, 8), d.value(want[i], env, 8)
                if a != b:
                    return 'byte %d: %02x instead of %02x for a sample message' % (i, a, b)
        except Unsure:
            return 'maybe'
        if n >= 4 and not k.e.path:
            break
    return 'maybe'


class Res:
    def __init__(self):
        self.used, self.calls, self.undecided, self.paths = set(), {}, [], 0
        self.e = self
        self.nins = 0
        self.stop = False
        import time
        self.t0 = time.time()


def history(cfg, fam, run, ob, res, oid, what, where):
    """run(machine) -> (bytes computed, bytes of the standard); compared on every path"""
    import time
    if res.stop or (not lemmas(cfg, fam) and time.time() - res.t0 > 20):
        res.calls['histories not followed'] = res.calls.get('histories not followed', 0) + 1
        return
    for uf in (lemmas(cfg, fam), ()):
        todo = [[]]
        verdict = None
        full = not uf
        while todo:
            ch = todo.pop()
            k = Machine(cfg, uf, ch)
            try:
                got, want = run(k)
            except Unsure as ex:
                verdict = verdict or ('maybe', str(ex))
                continue
            finally:
                res.nins += k.e.nins
            res.paths += 1
            for i in range(len(ch), len(k.e.taken)):
                todo.append(k.e.taken[:i] + [not k.e.taken[i]])
            if len(todo) > 40:
                verdict = ('maybe', 'too many paths')
                break
            if len(got) != len(want):
                raise Lost('internal: lengths differ')
            bad = compare(k, got, want)
            if not bad:
                continue
            if not full:
                verdict = ('retry', '')
                break
            w = witness(k, got, want, bad)
            if w != 'maybe':
                verdict = ('bad', w)
                break
            verdict = ('maybe', 'bytes %s of the result have another form than the standard\'s; no differing message found' % bad[:4])
        if verdict is None:
            ob(oid, True, '', where)
            return
        if verdict[0] == 'bad':
            res.stop = True
            ob(oid, False, '%s: %s' % (what, verdict[1]), where)
            return
        if full:
            res.undecided.append((oid, verdict[1]))
            return


def tag(res, cfg, fam):
    for _, _, fn, _ in lemmas(cfg, fam):
        res.calls['compression ' + fn] = res.calls.get('compression ' + fn, 0) + 1


# ---- SHA-512, streaming
def sha_stream(init, close, iv, nout, lens, again=False):
    def run(k):
        ctx = k.obj('ctx', 512)
        out = k.obj('out', 64)
        got, want = [], []
        k.call(init, ctx)
        for rep in range(2 if again else 1):
            msg = []
            for i, n in enumerate(lens):
                m = k.msg('m%d.%d' % (rep, i), n)
                p = k.obj('msg%d.%d' % (rep, i), max(n, 1), m)
                k.call('sph_sha384', ctx, p, n)
                msg += m
            k.call(close, ctx, out)
            got += k.bytes(out, nout)
            want += k.spec.sha512(msg, iv)[:nout]
        return got, want
    return run


def sha_stream_lens(c):
    r = 128 - c
    base = sorted({0, 1, r - 1, r, r + 1, r + 63, r + 127, r + 128, r + 129, r + 255, r + 256, 64, 111 - c if c < 111 else 0, 112 - c if c < 112 else 0, 240, 256, 257} - {-1})
    return [x for x in base if x >= 0]


def decide(cfg, g, ob):
    res = Res()
    p = g.split('.')
    if p[0] == 'round':
        for _, _, fn, _ in lemmas(cfg, p[1]):
            ob('compression ' + fn, True, '', fn)
        # where none is found, the histories are followed through every round
        return res
    if p[0] == 'sha512':
        a, b = int(p[1]), int(p[2])
        for c in range(a, b):
            for n in sha_stream_lens(c):
                ls = [c, n]
                history(cfg, 'sha', sha_stream('sph_sha512_init', 'sph_sha512_close', IV512, 64, ls), ob, res, 'init;update(%d);update(%d);close' % (c, n), 'SHA-512 of a %d-byte message given as %d+%d bytes' % (c + n, c, n), 'sph_sha384')
        tag(res, cfg, 'sha')
    elif p[0] == 'sha512x':
        for ls in ([0], [1, 1, 1], [5, 0, 123, 7], [127, 1, 128, 1], [100, 27, 1, 300], [64] * 5, [34, 255, 32, 33], [32, 32, 600]):
            history(cfg, 'sha', sha_stream('sph_sha512_init', 'sph_sha512_close', IV512, 64, ls), ob, res, 'init;update%s;close' % ls, 'SHA-512 of a message given as %s bytes' % ls, 'sph_sha384')
        for ls in ([3], [130], [120], [128]):
            history(cfg, 'sha', sha_stream('sph_sha512_init', 'sph_sha512_close', IV512, 64, ls, True), ob, res, 'context reused after close, %s' % ls, 'SHA-512 of a second message with the same context', 'sph_sha512_close')
        for n in (0, 1, 111, 112, 128, 200):
            history(cfg, 'sha', sha_stream('sph_sha384_init', 'sph_sha384_close', IV384, 48, [n]), ob, res, 'SHA-384 of %d bytes' % n, 'SHA-384 of %d bytes' % n, 'sph_sha384_close')
        tag(res, cfg, 'sha')
    elif p[0] == 'sha512long':
        longlen(cfg, ob, res)
    elif p[0] == 'two':
        for n in range(int(p[1]), int(p[2])):
            history(cfg, 'sha2w', two(n), ob, res, 'sha512_2w_avx(%d)' % n, 'two-way SHA-512 of %d-byte messages' % n, 'sha512_2w_avx')
        if p[1] == '0' and 'sha512_2w_avx_256b' in build.module(cfg).funcs:
            history(cfg, 'sha2w', two(32, 'sha512_2w_avx_256b'), ob, res, 'sha512_2w_avx_256b', 'two-way SHA-512 of 32-byte messages', 'sha512_2w_avx_256b')
        tag(res, cfg, 'sha2w')
    elif p[0] == 'twolong':
        twolong(cfg, ob, res)
    elif p[0] == 'shake':
        for n in range(int(p[1]), int(p[2])):
            for fn, rate in (('SHAKE256', 136), ('SHAKE128', 168)):
                for o in ((114,) if n % 17 else (0, 1, 64, 114, rate - 1, rate, rate + 1, 2 * rate, 2 * rate + 5, 3 * rate + 1)):
                    history(cfg, 'keccak', shake(fn, n, rate, o), ob, res, '%s(%d bytes, output %d)' % (fn, n, o), '%s of a %d-byte message, %d bytes of output' % (fn, n, o), fn)
        tag(res, cfg, 'keccak')
    elif p[0] == 'sponge':
        for c in range(int(p[1]), int(p[2])):
            r = 136 - c
            for n in sorted({0, 1, max(0, r - 8), r - 1, r, r + 1, r + 7, r + 135, r + 136, r + 137, r + 272, 57, 64, 114}):
                history(cfg, 'keccak', sponge([c, n], 114), ob, res, 'Init;Update(%d);Update(%d);Final2(114)' % (c, n), 'SHAKE256 of a %d-byte message given as %d+%d bytes' % (c + n, c, n), 'Update')
            for o in ((0, 1, 64, 135, 136, 137, 272, 273, 500) if c % 17 == 0 else ()):
                history(cfg, 'keccak', sponge([c], o), ob, res, 'Init;Update(%d);Final2(%d)' % (c, o), 'SHAKE256, %d bytes of output' % o, 'Final2')
        if p[1] == '0':
            for ls in ([0], [1, 2, 3], [10, 255, 57, 57, 64], [135, 1, 136], [57, 400]):
                history(cfg, 'keccak', sponge(ls, 114), ob, res, 'Init;Update%s;Final2' % ls, 'SHAKE256 of a message given as %s bytes' % ls, 'Update')
        tag(res, cfg, 'keccak')
    elif p[0] == 'lengths':
        lengths(cfg, ob, res)
    return res


def two(n, fn='sha512_2w_avx'):
    def run(k):
        ms = [k.msg('m%d' % l, n) for l in range(2)]
        mp = [k.obj('msg%d' % l, max(n, 1), ms[l]) for l in range(2)]
        dp = [k.obj('dig%d' % l, 64) for l in range(2)]
        ma, da = k.obj('messages', 16), k.obj('digests', 16)
        for l in range(2):
            k.put(k.mem, ma, 8 * l, mp[l])
            k.put(k.mem, da, 8 * l, dp[l])
        if fn.endswith('256b'):
            k.call(fn, ma, da)
        else:
            k.call(fn, ma, n, da)
        return k.bytes(dp[0], 64) + k.bytes(dp[1], 64), k.spec.sha512(ms[0]) + k.spec.sha512(ms[1])
    return run


def shake(fn, n, rate, out):
    def run(k):
        m = k.msg('m', n)
        p, q = k.obj('msg', max(n, 1), m), k.obj('out', max(out, 1))
        k.call(fn, p, 8 * n, q, out)
        return k.bytes(q, out), k.spec.shake(m, rate, out)
    return run


def sponge(lens, out):
    def run(k):
        st, q = k.obj('hash', 512), k.obj('out', max(out, 1))
        k.call('Init', st, 256)
        msg = []
        for i, n in enumerate(lens):
            m = k.msg('m%d' % i, n)
            k.call('Update', st, k.obj('msg%d' % i, max(n, 1), m), 8 * n)
            msg += m
        k.call('Final2', st, q, out)
        return k.bytes(q, out), k.spec.shake(msg, 136, out)
    return run


# ---- lengths beyond any enumeration
def symrun(cfg, fam, run, ob, res, oid, what, where):
    for uf in (lemmas(cfg, fam), ()):
        k = Machine(cfg, uf, (), True)
        k.e.symshift = 7
        try:
            r = run(k)
        except Unsure as ex:
            res.undecided.append((oid, str(ex)))
            return
        finally:
            res.nins += k.e.nins
        if r is None:
            res.undecided.append((oid, 'the code does not keep the length in a form the analysis recognises'))
            return
        got, want, names = r
        bad = compare(k, got, want)
        if not bad:
            ob(oid, True, '', where)
            return
        if uf:
            continue
        ats = set()
        for g in got:
            atoms_in(k.d, g, ats)
        if k.L not in ats:
            res.undecided.append((oid, 'the result does not mention the unknown block count'))
            return
        w = witness(k, got, want, bad)
        if w == 'maybe':
            res.undecided.append((oid, 'no differing message found'))
        else:
            ob(oid, False, '%s: %s' % (what, w), where)
        return


def twolong(cfg, ob, res):
    for c in (0, 1, 57, 111, 112, 127):
        def run(k, c=c):
            d = k.d
            n = d.add(d.shl(mk({frozenset([(k.L, 0)]): (1 << 56) - 1}), 7), C(c))
            ms = [k.msg('m%d' % l, c) for l in range(2)]
            mp = [k.obj('msg%d' % l, max(c, 1), ms[l]) for l in range(2)]
            dp = [k.obj('dig%d' % l, 64) for l in range(2)]
            ma, da = k.obj('messages', 16), k.obj('digests', 16)
            for l in range(2):
                k.put(k.mem, ma, 8 * l, mp[l])
                k.put(k.mem, da, 8 * l, dp[l])
            k.call('sha512_2w_avx', ma, n, da)
            return k.bytes(dp[0], 64) + k.bytes(dp[1], 64), k.spec.sha512(ms[0], total=n) + k.spec.sha512(ms[1], total=n), None
        symrun(cfg, 'sha2w', run, ob, res, 'length field of 128k+%d bytes, k unknown' % c, 'two-way SHA-512: final block of a message of 128k+%d bytes' % c, 'sha512_2w_avx')
    tag(res, cfg, 'sha2w')


def counter(cfg, L):
    """where the streaming context counts the bytes: (offset, size), found from its behaviour"""
    vals = []
    for n in (0, 1, 2, 200):
        k = Machine(cfg, lemmas(cfg, 'sha'))
        ctx = k.obj('ctx', 512)
        k.call('sph_sha512_init', ctx)
        if n:
            k.call('sph_sha384', ctx, k.obj('m', n, k.msg('m', n)), n)
        o = k.e.getobj(k.mem, 'ctx')
        vals.append((n, {f: v.lo for f, (s, v) in o.cells.items() if s == 8 and isinstance(v, V) and v.isc()}))
    c = [f for f in vals[0][1] if all(v.get(f) == n for n, v in vals)]
    return c[0] if len(c) == 1 else None


def longlen(cfg, ob, res):
    f = counter(cfg, 0)
    for c, n in ((0, 0), (1, 1), (100, 50), (111, 0), (112, 0), (127, 1), (127, 130), (60, 600)):
        def run(k, c=c, n=n):
            if f is None:
                return None
            d = k.d
            ctx, out = k.obj('ctx', 512), k.obj('out', 64)
            k.call('sph_sha512_init', ctx)
            m1 = k.msg('a', c)
            k.call('sph_sha384', ctx, k.obj('ma', max(c, 1), m1), c)
            # any number k of whole blocks went before
            tot = d.add(d.shl(mk({frozenset([(k.L, 0)]): (1 << 56) - 1}), 7), C(c))
            k.put(k.mem, k.e.ptradd(ctx, C(f)), 0, tot)
            m2 = k.msg('b', n)
            k.call('sph_sha384', ctx, k.obj('mb', max(n, 1), m2), n)
            k.call('sph_sha512_close', ctx, out)
            whole = d.nu(d.add(tot, C(n)), 64)
            return k.bytes(out, 64), k.spec.sha512(m1 + m2, total=whole), None
        symrun(cfg, 'sha', run, ob, res, 'length field of 128k+%d bytes after %d more, k unknown' % (c, n), 'SHA-512: padding of a message of 128k+%d bytes' % (c + n), 'sph_sha512_close')
    for n in (256, 300, 384, 511):
        def run(k, n=n):
            d = k.d
            k.e.symshift = 0
            d.index0 = k.e.at0
            ctx, out = k.obj('ctx', 512), k.obj('out', 64)
            k.call('sph_sha512_init', ctx)
            m = k.msg('a', n)
            tot = d.add(d.shl(mk({frozenset([(k.L, 0)]): (1 << 56) - 1}), 7), C(n))
            k.call('sph_sha384', ctx, k.obj('ma', n, m), tot)
            k.call('sph_sha512_close', ctx, out)
            return k.bytes(out, 64), k.spec.sha512(m, total=tot), None
        symrun(cfg, 'sha', run, ob, res, 'byte count after one update of 128k+%d bytes, k unknown' % n, 'SHA-512: padding after one update of 128k+%d bytes' % n, 'sph_sha384')
    tag(res, cfg, 'sha')


def lengths(cfg, ob, res):
    """every bit of the length takes part in the decision how many blocks are absorbed"""
    def go(oid, fam, fn, setup, top):
        k = Machine(cfg, lemmas(cfg, fam), (), True)
        k.e.symshift = 0
        k.d.index0 = k.e.at0
        n = mk({frozenset([(k.L, 0)]): (1 << 56) - 1})
        try:
            setup(k, n)
        except Unsure as ex:
            res.undecided.append((oid, str(ex)))
            return
        finally:
            res.nins += k.e.nins
        if k.e.seen == 0:
            res.undecided.append((oid, 'no decision on the length was met'))
            return
        miss = [j for j in range(8, 56) if not (k.e.seen >> (j)) & 1]
        ob(oid, not miss, 'no decision depends on bit %s of the length: a message of 2^%s more bytes is absorbed as if it were shorter' % (miss[:1], miss[:1]), fn)

    def shk(fn):
        def s(k, n):
            k.call(fn, k.obj('m', 1, k.msg('m', 1)), k.d.shl(n, 3), k.obj('o', 64), 64)
        return s

    def upd(k, n):
        st = k.obj('hash', 512)
        k.call('Init', st, 256)
        k.call('Update', st, k.obj('m', 1, k.msg('m', 1)), k.d.shl(n, 3))

    def sha(k, n):
        ctx = k.obj('ctx', 512)
        k.call('sph_sha512_init', ctx)
        k.call('sph_sha384', ctx, k.obj('m', 1, k.msg('m', 1)), n)

    def tw(k, n):
        ma, da = k.obj('messages', 16), k.obj('digests', 16)
        for l in range(2):
            k.put(k.mem, ma, 8 * l, k.obj('m%d' % l, 1, k.msg('m%d' % l, 1)))
            k.put(k.mem, da, 8 * l, k.obj('d%d' % l, 64))
        k.call('sha512_2w_avx', ma, n, da)
    for fn in ('SHAKE256', 'SHAKE128'):
        go('%s: whole length decides' % fn, 'keccak', fn, shk(fn), 56)
    go('Update: whole length decides', 'keccak', 'Update', upd, 56)
    go('sph_sha512: whole length decides', 'sha', 'sph_sha384', sha, 56)
    go('sha512_2w_avx: whole length decides', 'sha2w', 'sha512_2w_avx', tw, 56)


def jobs(tier='quick'):
    r = []
    for cfg in build.CONFIGS:
        r += [(cfg, 'hashes', g) for g in ('round.sha', 'round.sha2w', 'round.keccak', 'sha512x', 'sha512long', 'twolong', 'lengths')]
    c = list(build.CONFIGS)[0]
    r += [(c, 'hashes', 'sha512.%d.%d' % (i, i + 4)) for i in range(0, 128, 4)]
    r += [(c, 'hashes', 'two.%d.%d' % (i, i + 16)) for i in range(0, 400, 16)]
    r += [(c, 'hashes', 'shake.%d.%d' % (i, i + 10)) for i in range(0, 350, 10)]
    r += [(c, 'hashes', 'sponge.%d.%d' % (i, i + 4)) for i in range(0, 136, 4)]
    for c in list(build.CONFIGS)[1:]:
        r += [(c, 'hashes', g) for g in ('sha512.126.128', 'two.108.116', 'two.238.242', 'shake.134.138', 'sponge.133.136')]
    return r
