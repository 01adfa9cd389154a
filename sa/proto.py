"""EdDSA and hash-to-field as protocols: which bytes are hashed, which scalars are formed, which result is
returned under which condition.

The interpreter follows one path at a time over all decisions the code can make (`Paths`); hash
functions, scalar reduction and point routines are taken as operations on symbolic values and recorded.
Scalars are polynomials over Z/order in the digest bits; byte strings are per-byte symbols plus segments
of the message and the context whose lengths stay symbolic."""
import build, api
from dom import Dom, V, Ptr, C, Poly
from interp import Engine, Mem, Obj
from fieldsem import Field, Lost, Wrong
from ir import loc_str

L255 = (1 << 252) + 27742317777372353535851937790883648493
L448 = (1 << 446) - 13818066809895115352007386748515426880336692474882178609894547503885
OK_KEYGEN, OK_SIGN, OK_VERIFY, INVALID, E_KEY, E_CTX, E_PH = range(7)
M64 = (1 << 64) - 1


class Stop(Exception):
    pass


def key(p):
    return frozenset(p.d.items())


ONE = Poly({(): 1})


class PEngine(Engine):
    """Engine that remembers what an undecided comparison compares."""

    def __init__(self, m, d):
        Engine.__init__(self, m, d, max_undecided=1)
        self.mean = {}
        self.max_counted = 400

    def cmp(self, pred, a, b, w):
        r = Engine.cmp(self, pred, a, b, w)
        if isinstance(r, V) and not r.isc() and r.p is not None and isinstance(a, V) and isinstance(b, V):
            d = self.dom
            if pred in ('eq', 'ne'):
                x, y = d.nu(a, w), d.nu(b, w)
                if x.p is not None and y.p is not None:
                    t = r.p if pred == 'eq' else ONE.add(r.p, -1)
                    self.mean.setdefault(key(t), ('eq', x.p, y.p))
            else:
                x, y = (d.ns(a, w), d.ns(b, w)) if pred[0] == 's' else (d.nu(a, w), d.nu(b, w))
                o = pred[1:]
                if o in ('gt', 'ge'):
                    x, y = y, x
                    o = {'gt': 'lt', 'ge': 'le'}[o]
                if x.p is not None and y.p is not None:
                    self.mean.setdefault(key(r.p), (o, x.p, y.p))
        return r

    def select(self, c, x, y, w):
        if self.oracle is not None and isinstance(c, V) and not c.isc() and not (isinstance(x, V) and isinstance(y, V) and x.hi <= 1 and y.hi <= 1 and x.lo >= 0 and y.lo >= 0):
            return x if self.oracle(c, None) else y
        return Engine.select(self, c, x, y, w)


class Paths:
    """All decision sequences of a deterministic run."""

    def __init__(self, limit=4000):
        self.script, self.limit = [], limit
        self.n = 0

    def start(self):
        self.pos = 0
        self.n += 1
        if self.n > self.limit:
            raise Lost('more than %d paths' % self.limit)

    def choose(self, n):
        if self.pos == len(self.script):
            self.script.append([0, n])
        if len(self.script) > 600:
            raise Lost('path too long')
        c = self.script[self.pos][0]
        self.pos += 1
        return c

    def next(self):
        while self.script:
            if self.script[-1][0] + 1 < self.script[-1][1]:
                self.script[-1][0] += 1
                return True
            self.script.pop()
        return False


class Run:
    """One path: hooks, ghost state and facts."""

    def __init__(self, m, paths, ell):
        self.m, self.paths = m, paths
        self.d = Dom(True, maxterms=20000)
        self.e = PEngine(m, self.d)
        self.e.oracle = self.oracle
        self.e.budget = 4000000
        self.f = Field(ell)
        self.ell = ell
        self.mem = Mem()
        self.truth = {}
        self.facts = []        # ('eq'|'lt'|'le', p, q, bool)
        self.same = []         # (pairs, all equal?)
        self.vars = {}         # atom -> field variable
        self.sets = {}         # atom -> (set, index)
        self.setdef = []       # (F, n, reduced)
        self.ctx = {}          # hash state -> (algorithm, items)
        self.digests = {}      # first atom -> (algorithm, transcript, nbytes)
        self.points = {}       # location -> description
        self.encs = {}         # atom -> (encoding, index)
        self.encdef = []
        self.decodes = []
        self.segs = {}
        self.used = set()
        install(self)

    # ---- decisions
    def oracle(self, c, t):
        p = c.p
        if p is None:
            raise Lost('a decision without a relation at %s' % (loc_str(t) if t else '?'))
        k, k1 = key(p), key(ONE.add(p, -1))
        if k in self.truth:
            return self.truth[k]
        if k1 in self.truth:
            return not self.truth[k1]
        mean, neg = self.e.mean.get(k), False
        if mean is None:
            mean, neg = self.e.mean.get(k1), True
        forced = self.implied(mean)
        if forced is not None:
            r = forced != neg
        else:
            r = bool(self.paths.choose(2))
        self.truth[k] = r
        if mean is None:
            self.facts.append(('?', p, p, r))
        else:
            self.facts.append((mean[0], mean[1], mean[2], r != neg))
        return r

    def lin(self, p):
        """p = k*x + c for the run of bytes x: (x as sorted atoms, sign, c) or None"""
        c = p.d.get((), 0)
        t = sorted((abs(k), m, k) for m, k in p.d.items() if m)
        if not t or any(len(m) != 1 for _, m, _ in t):
            return None
        s = 1 if t[0][2] > 0 else -1
        for i, (a, m, k) in enumerate(t):
            if k != s << (8 * i) or self.d.atoms[m[0]].lo != 0 or self.d.atoms[m[0]].hi != 255:
                return None
        return tuple(m[0] for _, m, _ in t), s, c

    def ranges(self):
        """byte runs -> (lo, hi, excluded) from the facts of this path; None when contradictory"""
        r = {}
        for kind, p, q, val in self.facts:
            if kind == '?':
                continue
            x = self.lin(p.add(q, -1))
            if x is None:
                continue
            run, s, c = x
            lo, hi, ex = r.get(run, (0, (1 << (8 * len(run))) - 1, frozenset()))
            # s*x + c (rel) 0
            if kind == 'eq':
                v = -c * s
                if val:
                    lo, hi = max(lo, v), min(hi, v)
                else:
                    ex = ex | {v}
            else:
                b = 0 if kind == 'le' else -1          # s*x + c <= b
                if not val:
                    # s*x + c >= b+1
                    if s > 0:
                        lo = max(lo, b + 1 - c)
                    else:
                        hi = min(hi, c - b - 1)
                elif s > 0:
                    hi = min(hi, b - c)
                else:
                    lo = max(lo, c - b)
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
            r[run] = (lo, hi, ex)
        return r

    def implied(self, mean):
        if mean is None:
            return None
        x = self.lin(mean[1].add(mean[2], -1))
        if x is None:
            return None
        run, s, c = x
        b = self.ranges().get(run)
        if b is None:
            return None
        lo, hi = (b[0], b[1]) if s > 0 else (-b[1], -b[0])
        lo, hi = lo + c, hi + c
        if mean[0] == 'eq':
            v = -c * s
            if lo > 0 or hi < 0 or v in b[2]:
                return False
            return True if lo == hi == 0 else None
        k = 0 if mean[0] == 'le' else -1
        if hi <= k:
            return True
        return False if lo > k else None

    # ---- memory
    def loc(self, p, ins=None):
        if isinstance(p, Ptr):
            o, off = p.one()
            if o is not None and off.isc():
                return o, off.lo
        raise Lost('operand at an unknown address (%s)' % (loc_str(ins) if ins else ''))

    def byte(self, mem, o, off, ins=None):
        ob = self.e.getobj(mem, o)
        if ob is None:
            raise Lost('object %s is gone' % o)
        if isinstance(ob.size, int) and not 0 <= off < ob.size:
            raise Wrong('bounds', 'operand reaches outside %s' % o, loc_str(ins) if ins else '')
        v = self.e.rd(ob, off, 1)
        if not isinstance(v, V):
            raise Lost('operand byte is not an integer')
        if v.u:
            raise Wrong('undefined', 'an uninitialised byte of %s is used' % ob.name, loc_str(ins) if ins else '')
        return self.d.nu(v, 8)

    def bytes(self, mem, p, n, ins=None):
        o, off = self.loc(p, ins)
        return [self.byte(mem, o, off + i, ins) for i in range(n)]

    def integer(self, mem, p, n, ins=None):
        r = Poly({})
        for i, b in enumerate(self.bytes(mem, p, n, ins)):
            if b.p is None:
                raise Lost('operand byte without a relation')
            r = r.add(b.p.scale(1 << (8 * i)))
        return r

    def put(self, mem, p, vs, ins=None):
        o, off = self.loc(p, ins)
        ob = mem.w(o)
        if isinstance(ob.size, int) and off + len(vs) > ob.size:
            raise Wrong('bounds', 'a result is written past the end of %s' % ob.name, loc_str(ins) if ins else '')
        if ob.ro:
            raise Wrong('ro', 'a result is written to read-only %s' % ob.name, loc_str(ins) if ins else '')
        for i, v in enumerate(vs):
            self.e.wr(ob, off + i, 1, v)

    # ---- scalars
    def var(self, a):
        v = self.vars.get(a)
        if v is None:
            v = self.vars[a] = self.f.input(self.d.atoms[a].name)
        return v

    def F(self, p):
        """An integer polynomial as value mod the group order."""
        f = self.f
        groups = {}
        r = f.const(p.d.get((), 0))
        for m, c in p.d.items():
            if not m:
                continue
            if len(m) > 1:
                raise Lost('product of unknown bytes')
            a = m[0]
            if self.d.atoms[a].E is not None:
                raise Lost('a scalar with unresolved carries')
            if a in self.sets:
                k, i = self.sets[a]
                groups.setdefault(k, {})[i] = c
            else:
                r = f.add(r, f.var(self.var(a)), c)
        for k, g in groups.items():
            F, n, red = self.setdef[k]
            K = g.get(0, 0)
            if all(g.get(i, 0) == K << (8 * i) for i in range(n)):
                r = f.add(r, F, K)
            else:
                for i, c in g.items():
                    r = f.add(r, f.var(self.var(self.setatoms(k)[i])), c)
        return r

    def setatoms(self, k):
        return [a for a, (q, i) in sorted(self.sets.items(), key=lambda x: x[1]) if q == k]

    def reducedset(self, p):
        """p is exactly the integer of a reduced scalar"""
        ks = {self.sets[m[0]][0] for m in p.d if len(m) == 1 and m[0] in self.sets}
        if len(ks) != 1:
            return False
        k, = ks
        F, n, red = self.setdef[k]
        return red and len(p.d) == n and all(p.d.get((a,), 0) == 1 << (8 * i) for i, a in enumerate(self.setatoms(k)))

    def fresh(self, n, name, F=None, reduced=False):
        vs = []
        k = len(self.setdef)
        for i in range(n):
            v = self.d.fresh(0, 255, '%s[%d]' % (name, i))
            (a,), = v.p.d
            if F is not None:
                self.sets[a] = (k, i)
            vs.append(v)
        if F is not None:
            c, mo = self.f.mono(F)
            self.setdef.append(({((), mo): c} if c else {}, n, reduced))
        return vs

    def bitbytes(self, n, name):
        vs = []
        at = []
        for i in range(n):
            p = {}
            for j in range(8):
                a = self.d.atom(0, 1, '%s.%d' % (name, 8 * i + j))
                at.append(a)
                p[(a,)] = 1 << j
            vs.append(V(0, 255, Poly(p), 255))
        return vs, at

    # ---- hashing
    def items(self, mem, p, n, ins):
        """hash input as a list of byte polynomials and segments"""
        if n.isc():
            if n.lo == 0:
                return []
            o, off = self.loc(p, ins)
            ob = self.e.getobj(mem, o)
            if isinstance(ob.size, int):
                r = []
                for i in range(n.lo):
                    b = self.byte(mem, o, off + i, ins)
                    if b.p is None:
                        raise Lost('hashed byte without a relation')
                    r.append(('b', key(b.p)))
                return r
        o, off = self.loc(p, ins)
        ob = self.e.getobj(mem, o)
        if n.p is None:
            raise Lost('hash input of unknown length')
        g = self.segs.get(o)
        if g is not None:
            # a buffer filled by a copy: leading bytes and one segment
            r = []
            if off:
                raise Lost('hash input inside a copied buffer')
            st, items = g
            for i in range(st):
                r.append(('b', key(self.byte(mem, o, i, ins).p)))
            (so, soff, sn), = items
            if n.p.add(sn, -1) != Poly({(): st}):
                raise Wrong('length', 'the hashed length is not the length of the assembled message', loc_str(ins) if ins else '')
            return r + [('s', so, soff, key(sn))]
        if ob.kind != 'param' or isinstance(ob.size, int):
            raise Lost('hash input of symbolic length from %s' % ob.name)
        return [('s', o, off, key(n.p))]

    def hinit(self, mem, p, alg, ins):
        self.ctx[self.loc(p, ins)] = [alg, []]

    def hadd(self, mem, p, data, n, ins):
        s = self.ctx.get(self.loc(p, ins))
        if s is None:
            raise Wrong('hash', 'data is added to a hash state that was not initialised', loc_str(ins) if ins else '')
        s[1] += self.items(mem, data, n, ins)

    def digest(self, mem, dst, alg, items, n, ins):
        self.used.add(alg)
        vs, at = self.bitbytes(n, 'digest%d' % len(self.digests))
        self.digests[at[0]] = (alg, tuple(items), n, at)
        self.put(mem, dst, vs, ins)

    def hfinal(self, mem, p, dst, n, alg, ins):
        s = self.ctx.pop(self.loc(p, ins), None)
        if s is None or s[0] != alg:
            raise Wrong('hash', 'a digest is taken from a hash state that was not initialised for it', loc_str(ins) if ins else '')
        self.digest(mem, dst, alg, s[1], n, ins)


def install(r):
    H = {}
    d, e = r.d, r.e

    def h(*names):
        def deco(fn):
            for n in names:
                def g(en, mem, a, ins, fn=fn, n=n):
                    r.e.count('protocol operations')
                    r.used.add(n)
                    x = fn(mem, a, ins)
                    return C(0) if x is None else x
                H[n] = g
            return fn
        return deco

    @h('sph_sha512_init')
    def _(mem, a, ins):
        r.hinit(mem, a[0], 'SHA-512', ins)

    @h('sph_sha384')
    def _(mem, a, ins):
        r.hadd(mem, a[0], a[1], d.nu(a[2], 64), ins)

    @h('sph_sha512_close')
    def _(mem, a, ins):
        r.hfinal(mem, a[0], a[1], 64, 'SHA-512', ins)

    @h('sph_sha384_init', 'sph_sha384_close')
    def _(mem, a, ins):
        raise Wrong('hash', 'SHA-384 is used', loc_str(ins))

    def octets(n, ins):
        n = d.nu(n, 64)
        if n.isc():
            if n.lo & 7:
                raise Wrong('hash', 'hash input is not a whole number of bytes', loc_str(ins))
            return C(n.lo >> 3)
        if n.p is None:
            raise Lost('hash input of unknown length')
        if any(c % 8 for c in n.p.d.values()):
            raise Wrong('hash', 'hash input length is not given in bits', loc_str(ins))
        return V(n.lo >> 3, n.hi >> 3, Poly({m: c // 8 for m, c in n.p.d.items()}), None)

    @h('Init')
    def _(mem, a, ins):
        x = d.nu(a[1], 32)
        if not x.isc():
            raise Lost('hash variant unknown')
        r.hinit(mem, a[0], ('sponge', x.lo), ins)

    @h('Update')
    def _(mem, a, ins):
        r.hadd(mem, a[0], a[1], octets(a[2], ins), ins)

    @h('Final2')
    def _(mem, a, ins):
        n = d.nu(a[2], 32)
        s = r.ctx.get(r.loc(a[0], ins))
        if s is None or s[0] != ('sponge', 256):
            raise Wrong('hash', 'the sponge is not initialised as SHAKE256', loc_str(ins))
        s[0] = 'SHAKE256'
        r.hfinal(mem, a[0], a[1], n.lo, 'SHAKE256', ins)

    @h('Final', 'Hash', 'SHAKE128', 'Hash2')
    def _(mem, a, ins):
        raise Wrong('hash', 'another hash function than SHAKE256 is used', loc_str(ins))

    @h('SHAKE256')
    def _(mem, a, ins):
        it = r.items(mem, a[0], octets(a[1], ins), ins)
        r.digest(mem, a[2], 'SHAKE256', it, d.nu(a[3], 32).lo, ins)

    @h('sha512_2w_avx')
    def _(mem, a, ins):
        n = d.nu(a[1], 64)
        o, off = r.loc(a[0], ins)
        o2, off2 = r.loc(a[2], ins)
        for i in range(2):
            p = e.rd(e.getobj(mem, o), off + 8 * i, 8)
            q = e.rd(e.getobj(mem, o2), off2 + 8 * i, 8)
            r.digest(mem, q, 'SHA-512', r.items(mem, p, n, ins), 64, ins)

    @h('modular_reduction_ed25519')
    def _(mem, a, ins):
        if r.ell != L255:
            raise Wrong('scalar', 'reduced modulo the other group order', loc_str(ins))
        F = r.F(r.integer(mem, a[0], 64, ins))
        r.put(mem, a[0], r.fresh(32, 'red', F, True) + [d.top(8, 0, False, 'junk') for _ in range(32)], ins)

    @h('modular_reduction_ed448')
    def _(mem, a, ins):
        if r.ell != L448:
            raise Wrong('scalar', 'reduced modulo the other group order', loc_str(ins))
        F = r.F(r.integer(mem, a[0], 114, ins))
        r.put(mem, a[0], r.fresh(56, 'red', F, True) + [C(0)] * 58, ins)

    @h('reduce64bits')
    def _(mem, a, ins):
        o, off = r.loc(a[0], ins)
        lo = r.integer(mem, a[0], 32, ins)
        hi = r.integer(mem, Ptr({o: C(off + 32)}), 8, ins)
        if d.prange(lo.d)[1] >= 1 << 252 or d.prange(hi.d)[1] >= 64:
            raise Wrong('scalar', 'the partial reduction needs words below 2^252 and a top below 2^6', loc_str(ins))
        F = r.F(lo.add(hi.scale(1 << 252)))
        r.put(mem, a[0], r.fresh(32, 'red', F, True), ins)

    def multiplier(mem, a, ins):
        # pointers to the accumulator and the factors, each length follows its pointer (the accumulator's may be left out)
        ptr, num = [], {}
        for x in a:
            if isinstance(x, Ptr):
                ptr.append(x)
            else:
                num[len(ptr) - 1] = d.nu(x, 32)
        if len(ptr) != 3 or 1 not in num or 2 not in num or not all(v.isc() for v in num.values()):
            raise Lost('multiplication of unknown size')
        na, nb = num[1].lo, num[2].lo
        nc = num[0].lo if 0 in num else na + nb
        o, off = r.loc(ptr[0], ins)
        c = r.integer(mem, ptr[0], 8 * na, ins)
        for i in range(8 * na, 8 * nc):
            b = r.byte(mem, o, off + i, ins)
            if not (b.isc() and b.lo == 0):
                raise Lost('accumulating multiplication onto a long value')
        x, y = r.integer(mem, ptr[1], 8 * na, ins), r.integer(mem, ptr[2], 8 * nb, ins)
        F = r.f.add(r.F(c), r.f.mul(r.F(x), r.F(y)))
        r.put(mem, ptr[0], r.fresh(8 * min(nc, na + nb), 'prod', F), ins)

    H['word64_multiplier'] = lambda en, mem, a, ins: multiplier(mem, a, ins) or C(0)

    @h('calculate_s_ed25519')
    def _(mem, a, ins):
        if r.ell != L255:
            raise Wrong('scalar', 'S is computed modulo the other group order', loc_str(ins))
        R, k, x = (r.integer(mem, p, 32, ins) for p in a[1:4])
        F = r.f.add(r.F(R), r.f.mul(r.F(k), r.F(x)))
        r.put(mem, a[0], r.fresh(32, 'red', F, True), ins)

    @h('calculate_s_ed448')
    def _(mem, a, ins):
        if r.ell != L448:
            raise Wrong('scalar', 'S is computed modulo the other group order', loc_str(ins))
        R, k, x = (r.integer(mem, p, 56, ins) for p in a[1:4])
        F = r.f.add(r.F(R), r.f.mul(r.F(k), r.F(x)))
        r.put(mem, a[0], r.fresh(56, 'red', F, True) + [C(0)], ins)

    def scalar(mem, p, n, ins):
        x = r.integer(mem, p, n, ins)
        return x, r.F(x)

    def named(F):
        c, mo = r.f.mono(F)
        return {((), mo): c} if c else {}

    @h('point_multiplication_ed25519')
    def _(mem, a, ins):
        x, F = scalar(mem, a[1], 32, ins)
        if not r.reducedset(x) and d.prange(x.d)[1] >= 1 << 253:
            raise Wrong('scalar', 'the scalar of the fixed-base multiplication may exceed 2^253, for which the recoding loses its top digit', loc_str(ins))
        r.points[r.loc(a[0], ins)] = ('mul', named(F))

    @h('fixed_point_multiplication_ed448')
    def _(mem, a, ins):
        x, F = scalar(mem, a[1], 56, ins)
        r.points[r.loc(a[0], ins)] = ('mul', named(F))

    def enc(mem, dst, what, n, ins):
        k = len(r.encdef)
        r.encdef.append(what)
        vs = r.fresh(n, 'enc%d' % k)
        for i, v in enumerate(vs):
            (a,), = v.p.d
            r.encs[a] = (k, i)
        r.put(mem, dst, vs, ins)

    @h('point_encoding_ed25519', 'point_encoding_ed448')
    def _(mem, a, ins):
        pt = r.points.get(r.loc(a[1], ins))
        if pt is None:
            raise Wrong('point', 'the encoded point was not computed', loc_str(ins))
        enc(mem, a[0], pt, 32 if r.ell == L255 else 57, ins)

    @h('point_decoding_ed25519', 'point_decoding_ed448')
    def _(mem, a, ins):
        n = 32 if r.ell == L255 else 57
        bs = tuple(key(b.p) for b in r.bytes(mem, a[2], n, ins))
        k = r.paths.choose(2)
        r.decodes.append((bs, k == 0))
        if k:
            return C(M64 >> 32)
        for p in a[:2]:
            if isinstance(p, Ptr):
                r.points[r.loc(p, ins)] = ('dec', bs)
        return C(0)

    @h('double_point_mult_4w_ed25519', 'double_point_mult_4w_ed448')
    def _(mem, a, ins):
        n = 32 if r.ell == L255 else 57
        S = r.integer(mem, a[1], n, ins)
        K = r.integer(mem, a[2], n, ins)
        if not r.reducedset(K):
            raise Wrong('scalar', 'the digest scalar of the double multiplication is not reduced', loc_str(ins))
        pt = r.points.get(r.loc(a[3], ins))
        if pt is None or pt[0] != 'dec':
            raise Wrong('point', 'the double multiplication is used without a decoded public key', loc_str(ins))
        enc(mem, a[0], ('double', key(S), r.F(K), pt[1]), n, ins)

    @h('memcmp', 'bcmp')
    def _(mem, a, ins):
        n = d.nu(a[2], 64)
        if not n.isc():
            raise Lost('comparison of unknown length')
        x, y = r.bytes(mem, a[0], n.lo, ins), r.bytes(mem, a[1], n.lo, ins)
        pairs = [(u.p, v.p) for u, v in zip(x, y)]
        if all(p == q for p, q in pairs):
            return C(0)
        k = r.paths.choose(3)
        r.same.append((pairs, k == 0))
        return C((0, 1, M64 >> 32)[k])

    base = e.callhook

    def cpy(mem, dst, src, n, ins):
        n = d.nu(n, 64)
        if n.isc():
            return False
        so, soff = r.loc(src, ins)
        do, doff = r.loc(dst, ins)
        if n.p is None or e.getobj(mem, so).kind != 'param':
            raise Lost('copy of unknown length')
        r.segs[do] = (doff, [(so, soff, n.p)])
        return True
    e.memcpy_hook = cpy
    base.update(H)
    r.hooks = set(H)


# ---------------------------------------------------------------- the specification
DOM2 = b'SigEd25519 no Ed25519 collisions'
VARIANTS = {
    # variant: (order, key bytes, signature bytes, prefix, ph, context allowed)
    'Ed25519.Pure': (L255, 32, b'', 0, False),
    'Ed25519.Context': (L255, 32, DOM2, 0, True),
    'Ed25519.PreHash': (L255, 32, DOM2, 1, True),
    'Ed448.PureContext': (L448, 57, b'SigEd448', 0, True),
    'Ed448.PreHash': (L448, 57, b'SigEd448', 1, True),
}


def buf(r, name, n, kind):
    """argument buffer: 'in' bytes are 8-bit unknowns"""
    o = Obj(name, n, 'param', 'undef' if kind == 'out' else 'input')
    o.info = 'argument ' + name
    r.mem.add(o)
    at = []
    if kind == 'in':
        for i in range(n):
            v = r.d.fresh(0, 255, '%s[%d]' % (name, i))
            (a,), = v.p.d
            at.append(a)
            o.cells[i] = (1, v)
    return Ptr({name: C(0)}), at


def segment(r, name, lo, hi):
    n = r.d.fresh(lo, hi, 'len(%s)' % name)
    o = Obj(name, n, 'param', 'input')
    o.info = 'argument ' + name
    r.mem.add(o)
    return Ptr({name: C(0)}), n


def kb(at):
    return [('b', frozenset({((a,), 1)})) for a in at]


def cb(bs):
    return [('b', key(Poly({(): x} if x else {}))) for x in bs]


class Spec:
    """Expected transcripts and scalars of one path."""

    def __init__(self, r, variant, ob, path):
        self.r, self.v, self.ob, self.path = r, variant, ob, path
        self.ell, self.n, self.pre, self.ph, self.ctx = VARIANTS[variant]
        self.alg, self.hn = ('SHA-512', 64) if self.n == 32 else ('SHAKE256', 114)

    def find(self, items, alg=None, n=None):
        alg, n = alg or self.alg, n or self.hn
        for a0, (g, it, k, at) in self.r.digests.items():
            if g == alg and k == n and list(it) == items:
                return at
        return None

    def dom(self, clen):
        if not self.pre:
            return []
        r = cb(self.pre + bytes([self.ph]))
        r += cb([clen.lo]) if clen.isc() else [('b', key(clen.p))]
        if not (clen.isc() and clen.lo == 0):
            r += [('s', 'context', 0, key(clen.p))]
        return r

    def msg(self, mlen):
        m = [('s', 'message', 0, key(mlen.p))] if not (mlen.isc() and mlen.lo == 0) else []
        if not self.ph:
            return m
        at = self.find(m, None, 64)
        if at is None:
            return None
        return bits(at)

    def clamp(self, at):
        if self.n == 32:
            return Poly({(at[i],): 1 << i for i in range(3, 254)}).add(Poly({(): 1 << 254}))
        return Poly({(at[i],): 1 << i for i in range(2, 447)}).add(Poly({(): 1 << 447}))

    def low(self, at, nbytes=None):
        return self.r.F(Poly({(a,): 1 << i for i, a in enumerate(at)}))


def bits(at):
    return [('b', frozenset(((at[8 * i + j],), 1 << j) for j in range(8))) for i in range(len(at) // 8)]


def why(r, want, name):
    """how the closest recorded transcript differs from the expected one"""
    best = None
    for a0, (g, it, n, at) in r.digests.items():
        it = list(it)
        k = 0
        while k < min(len(it), len(want)) and it[k] == want[k]:
            k += 1
        if best is None or k > best[0]:
            best = (k, it, g, n)
    if best is None:
        return 'nothing is hashed'
    k, it, g, n = best
    sh = lambda x: 'end of input' if x is None else ('segment %s' % x[1]) if x[0] == 's' else 'byte ' + r.d.show(Poly(dict(x[1])), 3)
    return '%s: at item %d the code hashes %s instead of %s (%d items, %d expected; %s)' % (
        name, k, sh(it[k] if k < len(it) else None), sh(want[k] if k < len(want) else None), len(it), len(want), g)


def outbytes(r, mem, name, off, n):
    r2 = []
    o = mem.objs[name]
    for i in range(n):
        v = r.e.rd(o, off + i, 1)
        if not isinstance(v, V) or v.u or r.d.nu(v, 8).p is None:
            return None
        r2.append(r.d.nu(v, 8).p)
    return r2


def isset(r, ps, reduced=False):
    """the byte polynomials are exactly one registered scalar: its value"""
    k = None
    for i, p in enumerate(ps):
        if len(p.d) != 1:
            return None
        (m, c), = p.d.items()
        if c != 1 or len(m) != 1 or m[0] not in r.sets:
            return None
        q, j = r.sets[m[0]]
        if j != i or (k is not None and q != k):
            return None
        k = q
    F, n, red = r.setdef[k]
    return F if n == len(ps) and red else None


def isenc(r, ps):
    k = None
    for i, p in enumerate(ps):
        if len(p.d) != 1:
            return None
        (m, c), = p.d.items()
        if c != 1 or len(m) != 1 or m[0] not in r.encs:
            return None
        q, j = r.encs[m[0]]
        if j != i or (k is not None and q != k):
            return None
        k = q
    return r.encdef[k]


def keygen(m, fn, variant, ob):
    paths = Paths()
    n = 0
    while True:
        paths.start()
        r = Run(m, paths, VARIANTS[variant][0])
        s = Spec(r, variant, ob, '')
        pk, _ = buf(r, 'public key', s.n, 'out')
        sk, sa = buf(r, 'private key', s.n, 'in')
        ret, mem = r.e.call(fn, [pk, sk], r.mem)
        n += 1
        want = kb(sa)
        at = s.find(want)
        ob('hash of the private key', at is not None, why(r, want, 'key digest'), fn)
        if at is not None:
            ps = outbytes(r, mem, 'public key', 0, s.n)
            en = isenc(r, ps) if ps else None
            c, mo = r.f.mono(r.F(s.clamp(at)))
            ob('public key is the encoding of the clamped multiple', en == ('mul', {((), mo): c}), 'the public key is not the encoded multiple of the base point by the clamped scalar (got %s)' % desc(r, en), fn)
        ob('result', isc(r, ret, OK_KEYGEN), 'key generation does not report success', fn)
        if not paths.next():
            return r, n


def isc(r, ret, k):
    return isinstance(ret, V) and r.d.nu(ret, 32).isc() and r.d.nu(ret, 32).lo == k


def desc(r, en):
    if en is None:
        return 'other bytes'
    return '%s by %s' % (en[0], r.f.show(en[1], 4)) if en[0] == 'mul' else en[0]


def args_of(r, s, variant, sign, clo, chi):
    a = []
    msg, ml = segment(r, 'message', 0, 1 << 60)
    cl = None
    if sign:
        sg, sa = buf(r, 'signature', 2 * s.n, 'out')
        a.append(sg)
    a += [msg, ml]
    if s.ctx:
        cx, cl = segment(r, 'context', clo, chi)
        a += [cx, cl]
    pk, pa = buf(r, 'public key', s.n, 'in')
    a.append(pk)
    if sign:
        x, xa = buf(r, 'private key', s.n, 'in')
    else:
        x, xa = buf(r, 'signature', 2 * s.n, 'in')
    a.append(x)
    return a, ml, cl if cl is not None else C(0), pa, xa


def sign(m, fn, variant, ob, clo, chi):
    paths = Paths()
    n = 0
    while True:
        paths.start()
        r = Run(m, paths, VARIANTS[variant][0])
        s = Spec(r, variant, ob, '')
        a, ml, cl, pa, xa = args_of(r, s, variant, True, clo, chi)
        ret, mem = r.e.call(fn, a, r.mem)
        n += 1
        if clo > 255:
            ob('long context refused', isc(r, ret, E_CTX), 'a context longer than 255 bytes does not give EDDSA_ERROR_CONTEXT', fn)
        else:
            signed(r, s, mem, ret, ml, cl, pa, xa, ob, fn)
        if not paths.next():
            return r, n


def signed(r, s, mem, ret, ml, cl, pa, xa, ob, fn):
    N = s.n
    ok = isc(r, ret, OK_SIGN)
    ob('result', ok, 'signing does not report success', fn)
    if not ok:
        return
    want = kb(xa)
    ah = s.find(want)
    ob('hash of the private key', ah is not None, why(r, want, 'key digest'), fn)
    M = s.msg(ml)
    ob('prehash', M is not None, why(r, [('s', 'message', 0, key(ml.p))], 'message digest'), fn)
    if ah is None or M is None:
        return
    want = s.dom(cl) + bits(ah)[N:2 * N] + M
    rd = s.find(want)
    ob('nonce hash', rd is not None, why(r, want, 'nonce digest'), fn)
    ps = outbytes(r, mem, 'signature', 0, 2 * N)
    ob('signature written', ps is not None, 'not every byte of the signature is defined', fn)
    if rd is None or ps is None:
        return
    f = r.f
    c, mo = f.mono(s.low(rd))
    R = {((), mo): c}
    en = isenc(r, ps[:N])
    ob('R', en == ('mul', R), 'R is not the encoded multiple of the base point by the nonce (got %s)' % desc(r, en), fn)
    if en is None:
        return
    want = s.dom(cl) + [('b', key(p)) for p in ps[:N]] + kb(pa) + M
    kd = s.find(want)
    ob('challenge hash', kd is not None, why(r, want, 'challenge digest'), fn)
    if kd is None:
        return
    S = f.add(R, f.mul(s.low(kd), r.F(s.clamp(ah))))
    q = ps[N:]
    if N == 57:
        ob('S high byte', q[56] == Poly({}), 'the last byte of S is not zero', fn)
        q = q[:56]
    got = isset(r, q)
    same = False
    if got is not None:
        c1, m1 = f.mono(S)
        same = got == {((), m1): c1}
    ob('S', same, 'S is not r + k*a modulo the group order%s' % ('' if got is not None else ' (its bytes are not a reduced scalar)'), fn)


def pairs(r):
    """(equal pairs, list of 'some of these differ') of byte polynomials known on this path"""
    eq, ne = set(), []
    for ps, same in r.same:
        ks = [frozenset((key(a), key(b))) for a, b in ps if a != b]
        if same:
            eq.update(ks)
        else:
            ne.append(ks)
    A = r.d.atoms
    for kind, p, q, val in r.facts:
        if kind != 'eq':
            continue
        x = p.add(q, -1)
        ks = []
        todo = [x]
        good = True
        while todo and good:
            y = todo.pop()
            y1 = y if max(y.d.values(), default=0) > 0 else y.scale(-1)
            if len(y1.d) == 1:
                (mo, c), = y1.d.items()
                if c == 1 and len(mo) == 1 and A[mo[0]].ors is not None:
                    todo += list(A[mo[0]].ors)
                    continue
                if c == 1 and len(mo) == 1 and A[mo[0]].xor is not None and len(A[mo[0]].xor) == 2:
                    u, v = A[mo[0]].xor
                    ks += split(r, u, v)
                    continue
                good = False
            else:
                pos = Poly({k: c for k, c in y.d.items() if c > 0})
                neg = Poly({k: -c for k, c in y.d.items() if c < 0})
                z = split(r, pos, neg)
                good = bool(z)
                ks += z
        if good and ks:
            if val:
                eq.update(ks)
            else:
                ne.append(ks)
    return eq, ne


def split(r, u, v):
    """equality of two words as equalities of their bytes"""
    x, y = r.lin(u), r.lin(v)
    if not x or not y or x[1:] != (1, 0) or y[1:] != (1, 0) or len(x[0]) != len(y[0]):
        return []
    return [frozenset((frozenset({((a,), 1)}), frozenset({((b,), 1)}))) for a, b in zip(x[0], y[0])]


def sbounds(r, at):
    """range of the integer with bytes at, from the facts of this path"""
    lo = hi = 0
    done = set()
    idx = {a: i for i, a in enumerate(at)}
    for run, (l, h, ex) in r.ranges().items():
        if all(a in idx for a in run) and not any(a in done for a in run):
            i = idx[run[0]]
            if [idx[a] for a in run] == list(range(i, i + len(run))):
                done.update(run)
                lo += l << (8 * i)
                hi += h << (8 * i)
    for a, i in idx.items():
        if a not in done:
            hi += 255 << (8 * i)
    return lo, hi


def verify(m, fn, variant, ob, clo, chi):
    paths = Paths()
    n = 0
    seen = set()
    while True:
        paths.start()
        r = Run(m, paths, VARIANTS[variant][0])
        s = Spec(r, variant, ob, '')
        a, ml, cl, pa, xa = args_of(r, s, variant, False, clo, chi)
        ret, mem = r.e.call(fn, a, r.mem)
        n += 1
        ret = r.d.nu(ret, 32)
        if not ret.isc():
            raise Lost('verification result is not a constant on a path')
        seen.add(ret.lo)
        verified(r, s, ret.lo, ml, cl, pa, xa, ob, fn, clo > 255)
        if not paths.next():
            break
    if clo <= 255:
        ob('accepts', OK_VERIFY in seen, 'no path accepts a signature', fn)
    return r, n


def unread(r, at):
    """decisions about the bytes at whose meaning is not understood"""
    A = r.d.atoms
    ids = set(at)

    def touches(p, depth=0):
        for mo in p.d:
            for a in mo:
                if a in ids:
                    return True
                x = A[a]
                if depth < 40 and any(touches(q, depth + 1) for q in (x.ors or ())) or depth < 40 and any(touches(q, depth + 1) for q in (x.xor or ())):
                    return True
                if x.E is not None and depth < 40 and touches(x.E if isinstance(x.E, Poly) else x.E[0], depth + 1):
                    return True
                if not x.name.startswith(('message', 'context', 'signature[', 'public', 'enc', 'digest', 'red', 'len')):
                    return None
        return False
    for kind, p, q, val in r.facts:
        if kind == '?':
            return True
        if r.lin(p.add(q, -1)) is None and touches(p.add(q, -1)) is not False:
            return True
    return False


def verified(r, s, code, ml, cl, pa, xa, ob, fn, long):
    N = s.n
    if long:
        ob('long context refused', code == E_CTX, 'a context longer than 255 bytes gives result %d instead of EDDSA_ERROR_CONTEXT' % code, fn)
        return
    key_ok = [k for bs, k in r.decodes if bs == tuple(frozenset({((a,), 1)}) for a in pa)]
    R, S = xa[:N], xa[N:]
    lo, hi = sbounds(r, S)
    if code == OK_VERIFY:
        ob('accepted: key decoded', bool(key_ok) and all(key_ok), 'a signature is accepted %s' % ('although the public key does not decode' if key_ok else 'without decoding the public key'), fn)
        if hi >= s.ell and not unreadS(r, S):
            ob('accepted: S below the order', False, 'a signature with S >= the group order is accepted, e.g. S = %d' % max(lo, s.ell), fn)
        elif hi >= s.ell:
            raise Lost('the comparison of S with the group order is not understood')
        else:
            ob('accepted: S below the order', True)
        eq, ne = pairs(r)
        good, why_ = False, 'no recomputed point is compared with R'
        for k, en in enumerate(r.encdef):
            if en[0] != 'double':
                continue
            q = sorted((i, a) for a, (j, i) in r.encs.items() if j == k)
            miss = [i for i, a in q if frozenset((frozenset({((a,), 1)}), frozenset({((R[i],), 1)}))) not in eq]
            if miss:
                if any(x for kind, *x in r.facts if kind == '?'):
                    raise Lost('the comparison of R is not understood')
                why_ = 'byte %d of R is not compared with the recomputed point' % miss[0]
                continue
            why_ = recomputed(r, s, en, ml, cl, pa, R, S)
            good = why_ is None
            break
        ob('accepted: R recomputed', good, why_ or '', fn)
    elif code == E_KEY:
        ob('bad key reported', bool(key_ok) and not any(key_ok), 'EDDSA_ERROR_PUBLICKEY is returned although the public key decodes', fn)
    elif code == INVALID:
        ok = lo >= s.ell
        reason = 'a signature is rejected without a reason'
        if not ok and key_ok and not all(key_ok):
            ok, reason = False, 'a public key that does not decode is reported as an invalid signature'
        elif not ok:
            eq, ne = pairs(r)
            for k, en in enumerate(r.encdef):
                if en[0] != 'double':
                    continue
                q = {frozenset((frozenset({((a,), 1)}), frozenset({((R[i],), 1)}))) for a, (j, i) in r.encs.items() if j == k}
                if any(ks and all(x in q for x in ks) for ks in ne):
                    reason = recomputed(r, s, en, ml, cl, pa, R, S)
                    ok = reason is None
            if not ok and (any(kind == '?' for kind, *x in r.facts) or unreadS(r, S)):
                raise Lost('a reason for rejection is not understood')
        ob('rejected for a reason', ok, '%s (S in [%d, %d])' % (reason, lo, hi), fn)
    elif code == E_CTX:
        ob('context accepted', False, 'a context of at most 255 bytes is refused', fn)
    else:
        ob('result', False, 'verification returns %d' % code, fn)


def unreadS(r, S):
    return unread(r, S)


def recomputed(r, s, en, ml, cl, pa, R, S):
    """None, or why the encoding is not [S]B - [k]A with the right k"""
    _, kS, FK, pt = en
    if kS != frozenset(((a,), 1 << (8 * i)) for i, a in enumerate(S)):
        return 'the double multiplication does not use S'
    if pt != tuple(frozenset({((a,), 1)}) for a in pa):
        return 'the double multiplication does not use the decoded public key'
    M = s.msg(ml)
    if M is None:
        return why(r, [('s', 'message', 0, key(ml.p))], 'message digest')
    want = s.dom(cl) + kb(R) + kb(pa) + M
    kd = s.find(want)
    if kd is None:
        return why(r, want, 'challenge digest')
    c, mo = r.f.mono(s.low(kd))
    if FK != {((), mo): c}:
        return 'the challenge scalar is not the challenge digest modulo the group order'
    return None


class Res:
    used = set()

    def __init__(self, r, n):
        self.e = r.e
        self.calls = {k: 1 for k in r.used}
        self.paths = n


def decide(cfg, g, ob):
    """g: 'Ed25519.Pure.sign' or '...:long' for contexts over 255 bytes"""
    g, _, mode = g.partition(':')
    m = build.module(cfg)
    table, variant, op = g.split('.')
    fn = api.tables(m)[table].get(variant + '.' + op)
    if fn is None:
        raise Lost('%s is not there' % g)
    clo, chi = (256, 1 << 60) if mode else (0, 255)
    v = table + '.' + variant
    if op == 'keygen':
        r, n = keygen(m, fn, v, ob)
    elif op == 'sign':
        r, n = sign(m, fn, v, ob, clo, chi)
    else:
        r, n = verify(m, fn, v, ob, clo, chi)
    for x in list(r.e.events.values())[:2]:
        if x.kind in ('oob', 'undef-branch', 'ro-write', 'null-deref', 'dangling', 'wild-pointer'):
            ob('fault', False, repr(x), fn)
    return Res(r, n)


if __name__ == '__main__':
    import sys, time, traceback
    for g in sys.argv[1:]:
        t = time.time()
        c = [0, 0]

        def ob(i, ok, d_='', w=''):
            c[not ok] += 1
            if not ok:
                print('FAIL', i, '--', d_, w)
        try:
            res = decide('adx', g, ob)
            print(g, c, 'paths', res.paths, '%.1fs' % (time.time() - t), sorted(res.calls))
        except (Lost, Wrong) as ex:
            print(g, type(ex).__name__, ex)
            traceback.print_exc()
