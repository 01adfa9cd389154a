"""Bit-vector values for hash functions.

A word is kept as an exclusive-or of products of rotated unknowns, each under a bit mask (an
algebraic normal form over whole words), or as a modular sum of such words.  Equal words get equal
forms for the operations hash functions are made of (rotations, shifts, and/or/xor/not, modular
addition in any association, byte permutation), so that two computations are compared by
comparing forms.
"""
from dom import Dom, V, Ptr, Vec, C

E = frozenset()
BIG = 1 << 300


class Unsure(Exception):
    pass


class H(V):
    """f: {frozenset of (atom, rotation): mask}, or s/c: lazy modular sum {key: (H, coef)} + c."""
    __slots__ = ('f', 's', 'c', 'k')

    def isc(self):
        return False

    def __repr__(self):
        return 'H(%s)' % (self.f if self.f is not None else 'sum of %d' % len(self.s))


def mk(f):
    """word of a form; constants become plain values"""
    hi = 0
    for m in f.values():
        hi |= m
    if not f:
        return C(0)
    if len(f) == 1 and E in f:
        return C(f[E])
    h = H(0, hi, None, hi)
    h.f, h.s, h.c, h.k = f, None, 0, None
    return h


def mksum(s, c):
    h = H(-BIG, BIG, None, None)
    h.f, h.s, h.c, h.k = None, s, c, None
    return h


def xorin(f, m, mask):
    v = f.get(m, 0) ^ mask
    if v:
        f[m] = v
    else:
        f.pop(m, None)


class HDom(Dom):
    def __init__(self, **kw):
        Dom.__init__(self, **kw)
        self.ha = []            # (kind, data, live mask)
        self.cons = {}
        self.maxform = 6000
        self.index0 = None      # reading of a signed index when the control flow takes the length as 0

    # ---- unknowns
    def hatom(self, kind, data, live):
        """hash-consed unknown"""
        k = (kind, data)
        a = self.cons.get(k)
        if a is None:
            a = self.cons[k] = len(self.ha)
            self.ha.append((kind, data, live))
        return a

    def word(self, kind, data, live):
        return mk({frozenset([(self.hatom(kind, data, live), 0)]): live})

    def key(self, v):
        """hashable form of a word (already reduced to its width)"""
        if isinstance(v, H):
            if v.k is None:
                v.k = frozenset(v.f.items())
            return v.k
        if isinstance(v, V) and v.isc():
            return frozenset([(E, v.lo)]) if v.lo else E
        return frozenset(self.form(v).items())

    def form(self, v):
        if isinstance(v, H):
            return v.f
        if isinstance(v, (Ptr, Vec)):
            raise Unsure('an address takes part in the computation')
        if v.isc():
            return {E: v.lo} if v.lo else {}
        if v.p is not None and not v.u:
            a = self.hatom('poly', v.p, v.hi)
        else:
            a = self.hatom('opaque', len(self.ha), v.hi)
        live = (1 << v.hi.bit_length()) - 1
        return {frozenset([(a, 0)]): live}

    def isH(self, *vs):
        return any(isinstance(v, H) for v in vs)

    # ---- normalisation
    def nu(self, v, w):
        if not isinstance(v, H):
            return Dom.nu(self, v, w)
        M = (1 << w) - 1
        if v.f is not None:
            if v.hi <= M:
                return v
            return mk({m: k & M for m, k in v.f.items() if k & M})
        return self.reduce(v.s, v.c, w)

    def ns(self, v, w):
        if not isinstance(v, H):
            return Dom.ns(self, v, w)
        v = self.nu(v, w)
        if v.hi >> (w - 1) and isinstance(v, H):
            if self.index0 is not None:
                return self.index0(v)
            raise Unsure('signed reading of a message-dependent word')
        return v

    def split(self, f):
        """terms grouped into pieces whose bits do not meet: word = sum of the pieces"""
        g = []
        for m, k in f.items():
            hit = [x for x in g if x[0] & k]
            if not hit:
                g.append([k, {m: k}])
                continue
            x = hit[0]
            for y in hit[1:]:
                x[0] |= y[0]
                x[1].update(y[1])
                g.remove(y)
            x[0] |= k
            x[1][m] = k
        return [x[1] for x in g]

    def reduce(self, s, c, w):
        M = (1 << w) - 1
        items = {}

        def put(k, coef):
            x = (items.get(k, 0) + coef) & M
            if x:
                items[k] = x
            else:
                items.pop(k, None)
        for h, coef in s.values():
            f = self.form(self.nu(h, w))
            for piece in ([f] if len(f) == 1 else self.split(f)):
                if len(piece) == 1:
                    (m, k), = piece.items()
                    if m == E:
                        c += coef * k
                        continue
                    if len(m) == 1:
                        (a, r), = m
                        kind, data, live = self.ha[a]
                        if kind == 'add' and r == 0 and data[0] == w and k == live:
                            for k2, c2 in data[1]:
                                put(k2, coef * c2)
                            c += coef * data[2]
                            continue
                put(frozenset(piece.items()), coef)
        c &= M
        if not items:
            return C(c)
        self.fuse(items)
        # pieces that do not overlap: an exclusive-or
        if all(x & (x - 1) == 0 for x in items.values()):
            seen = c
            f = {E: c} if c else {}
            ok = True
            for k, x in items.items():
                n = x.bit_length() - 1
                for m, b in k:
                    b = (b << n) & M
                    if not b:
                        continue
                    m = frozenset((a, (r + n) % 64) for a, r in m) if n else m
                    xorin(f, m, b)
                u = 0
                for m, b in k:
                    u |= (b << n) & M
                if u & seen:
                    ok = False
                    break
                seen |= u
            if ok:
                return mk(f)
        if w > 64:
            raise Unsure('carry of a wide message-dependent sum')
        z = w
        top = c
        for k, x in items.items():
            u = 0
            for m, b in k:
                u |= b
            z = min(z, ((u & -u) * (x & -x)).bit_length() - 1)
            top += u * x
        low = c & ((1 << z) - 1)
        c -= low
        live = M & ~((1 << z) - 1)
        if top <= M:
            live &= (1 << top.bit_length()) - 1
        a = self.hatom('add', (w, frozenset(items.items()), c), live)
        f = {frozenset([(a, 0)]): live}
        if low:
            f[E] = low
        return mk(f)

    def fuse(self, items):
        """addends that are never both set in any bit become one word (x&y + ~x&z)"""
        again = True
        while again:
            again = False
            small = [k for k in items if any(len(m) > 1 for m, _ in k) and len(self.atomsof(dict(k))) <= 2]
            if not small:
                return
            for k in small:
                if k not in items:
                    continue
                A = self.atomsof(dict(k))
                for j, x in list(items.items()):
                    if j == k or x != items[k]:
                        continue
                    B = self.atomsof(dict(j))
                    if len(A | B) > 3 or not A & B:
                        continue
                    f = {}
                    for m, b in k:
                        for n, d in j:
                            if b & d:
                                xorin(f, m | n, b & d)
                    if f:
                        continue
                    del items[k], items[j]
                    z = frozenset(self.xorf(dict(k), dict(j)).items())
                    items[z] = items.get(z, 0) + x
                    again = True
                    break

    # ---- sums
    def terms(self, v):
        if isinstance(v, H) and v.s is not None:
            return v.s, v.c
        if v.isc():
            return {}, v.lo
        if not isinstance(v, H):
            v = mk(self.form(v)) if v.lo >= 0 else None
            if v is None:
                raise Unsure('negative unknown')
        return {self.key(v): (v, 1)}, 0

    def lin(self, a, ka, b, kb):
        s1, c1 = self.terms(a)
        s2, c2 = self.terms(b)
        s = {}
        for src, kk in ((s1, ka), (s2, kb)):
            for k, (h, x) in src.items():
                y = x * kk + (s[k][1] if k in s else 0)
                if y:
                    s[k] = (h, y)
                else:
                    s.pop(k, None)
        c = c1 * ka + c2 * kb
        if not s:
            return C(c)
        return mksum(s, c)

    def add(self, a, b):
        if not self.isH(a, b):
            return Dom.add(self, a, b)
        if a.isc() and a.lo == 0:
            return b
        if b.isc() and b.lo == 0:
            return a
        if a.lo >= 0 and b.lo >= 0 and not (a.isc() and a.lo < 0) and not (b.isc() and b.lo < 0):
            fa, fb = self.form(a), self.form(b)
            ma = mb = 0
            for k in fa.values():
                ma |= k
            for k in fb.values():
                mb |= k
            if not ma & mb:
                f = dict(fa)
                for m, k in fb.items():
                    xorin(f, m, k)
                return mk(f)
        return self.lin(a, 1, b, 1)

    def sub(self, a, b):
        if not self.isH(a, b):
            return Dom.sub(self, a, b)
        return self.lin(a, 1, b, -1)

    def neg(self, a):
        if not isinstance(a, H):
            return Dom.neg(self, a)
        return self.lin(C(0), 1, a, -1)

    def mul(self, a, b):
        if not self.isH(a, b):
            return Dom.mul(self, a, b)
        if a.isc():
            a, b = b, a
        if b.isc():
            if b.lo == 0:
                return C(0)
            if b.lo == 1:
                return a
            if b.lo > 0 and b.lo & (b.lo - 1) == 0 and a.f is not None:
                return self.shl(a, b.lo.bit_length() - 1)
            return self.lin(C(0), 1, a, b.lo)
        raise Unsure('product of two message-dependent words')

    # ---- shifts
    def shl(self, a, k, w=None):
        if not isinstance(a, H):
            return Dom.shl(self, a, k, w)
        if w is not None and k >= w:
            return C(0)
        if a.f is None:
            if w is None:
                raise Unsure('shift of a sum without a width')
            a = self.nu(a, w)
            if not isinstance(a, H):
                return Dom.shl(self, a, k, w)
        if k == 0:
            return a
        M = (1 << w) - 1 if w is not None else -1
        f = {}
        for m, b in a.f.items():
            b = (b << k) & M
            if b:
                xorin(f, frozenset((x, (r + k) % 64) for x, r in m), b)
        return mk(f)

    def lshr(self, a, k, w):
        if not isinstance(a, H):
            return Dom.lshr(self, a, k, w)
        a = self.nu(a, w)
        if k == 0:
            return a
        if not isinstance(a, H):
            return Dom.lshr(self, a, k, w)
        f = {}
        for m, b in a.f.items():
            b >>= k
            if b:
                xorin(f, frozenset((x, (r - k) % 64) for x, r in m), b)
        return mk(f)

    def ashr(self, a, k, w):
        if not isinstance(a, H):
            return Dom.ashr(self, a, k, w)
        return self.lshr(self.ns(a, w), min(k, w - 1), w)

    def bits(self, a, s, t, w):
        if not isinstance(a, H):
            return Dom.bits(self, a, s, t, w)
        return self.nu(self.lshr(a, s, w), t - s)

    # ---- bitwise
    def atomsof(self, f):
        return {a for m in f for a, r in m}

    def name(self, f):
        """the word as one unknown (constant part kept apart)"""
        c = f.get(E, 0)
        g = {m: k for m, k in f.items() if m}
        if len(g) <= 1:
            return f
        live = 0
        for k in g.values():
            live |= k
        a = self.hatom('name', frozenset(g.items()), live)
        r = {frozenset([(a, 0)]): live}
        if c:
            r[E] = c
        return r

    def xorf(self, fa, fb):
        f = dict(fa)
        for m, k in fb.items():
            xorin(f, m, k)
        return f

    def bxor(self, a, b, w):
        if not self.isH(a, b):
            return Dom.bxor(self, a, b, w)
        fa, fb = self.form(self.nu(a, w)), self.form(self.nu(b, w))
        if (len(fa) > 1 or E not in fa) and (len(fb) > 1 or E not in fb) and len(self.atomsof(fa) | self.atomsof(fb)) > 3:
            ma = mb = 0
            for k in fa.values():
                ma |= k
            for k in fb.values():
                mb |= k
            if ma & mb:
                la, lb = all(len(m) < 2 for m in fa), all(len(m) < 2 for m in fb)
                if not la and not lb:
                    fa, fb = self.name(fa), self.name(fb)
                elif la != lb:
                    L, P = (fa, fb) if la else (fb, fa)
                    if len(self.atomsof(P)) >= 3:
                        P = self.name(P)
                    else:
                        L = self.name(L)
                    fa, fb = L, P
        f = self.xorf(fa, fb)
        if len(f) > self.maxform:
            f = self.name(f)
        return mk(f)

    def band(self, a, b, w):
        if not self.isH(a, b):
            return Dom.band(self, a, b, w)
        a, b = self.nu(a, w), self.nu(b, w)
        if a.isc():
            a, b = b, a
        if b.isc():
            if not isinstance(a, H):
                return Dom.band(self, a, b, w)
            return mk({m: k & b.lo for m, k in a.f.items() if k & b.lo})
        fa, fb = self.form(a), self.form(b)
        if self.key(a) == self.key(b):
            return a
        if len(self.atomsof(fa) | self.atomsof(fb)) > 3:
            fa, fb = self.name(fa), self.name(fb)
        f = {}
        for m, k in fa.items():
            for n, j in fb.items():
                if k & j:
                    xorin(f, m | n, k & j)
        return mk(f)

    def bor(self, a, b, w):
        if not self.isH(a, b):
            return Dom.bor(self, a, b, w)
        a, b = self.nu(a, w), self.nu(b, w)
        if not self.mayof(a) & self.mayof(b):
            return self.add(a, b)
        if len(self.atomsof(self.form(a)) | self.atomsof(self.form(b))) <= 3:
            return self.bxor(self.bxor(a, b, w), self.band(a, b, w), w)
        return self.bnot(self.band(self.bnot(a, w), self.bnot(b, w), w), w)

    def bnot(self, a, w):
        if not isinstance(a, H):
            return Dom.bnot(self, a, w)
        return self.bxor(a, C((1 << w) - 1), w)

    # ---- the rest
    def mayof(self, v):
        if isinstance(v, H):
            return v.hi if v.f is not None else -1
        return Dom.mayof(self, v)

    def tag(self, v, t, u):
        return v if isinstance(v, H) else Dom.tag(self, v, t, u)

    def simp(self, r):
        return r if isinstance(r, H) else Dom.simp(self, r)

    def untangle(self, v):
        return v if isinstance(v, H) else Dom.untangle(self, v)

    def clamp(self, v):
        return v if isinstance(v, H) else Dom.clamp(self, v)

    def join(self, a, b, name='phi'):
        if a is b:
            return a
        if isinstance(a, V) and isinstance(b, V) and self.isH(a, b):
            if (not isinstance(a, H) or a.f is not None) and (not isinstance(b, H) or b.f is not None) and a.lo >= 0 and b.lo >= 0 and self.key(a) == self.key(b):
                return a
            raise Unsure('message-dependent words meet')
        return Dom.join(self, a, b, name)

    def decided(self, a, k):
        return None if isinstance(a, H) else Dom.decided(self, a, k)

    # ---- concrete reading of a form
    def value(self, v, env, w=64):
        """integer value when every base unknown has the value env(kind, data)"""
        memo = env['memo']
        f = self.form(self.nu(v, w))
        out = 0
        for m, k in f.items():
            x = k
            for a, r in m:
                y = memo.get(a)
                if y is None:
                    y = memo[a] = self.atomvalue(a, env)
                # the unknown repeats with period 64
                y &= (1 << 64) - 1
                y = ((y << r) | (y >> (64 - r))) & ((1 << 64) - 1) if r else y
                if k >> 64:
                    y |= y << 64
                x &= y
            out ^= x
        return out

    def atomvalue(self, a, env):
        kind, data, live = self.ha[a]
        if kind == 'add':
            w, items, c = data
            return (c + sum(self.value(mk(dict(k)), env, w) * x for k, x in items)) & ((1 << w) - 1)
        if kind == 'name':
            return self.value(mk(dict(data)), env)
        if kind == 'uf':
            return env['uf'](data[0], data[1], tuple(self.value(mk(dict(k)) if k else C(0), env) for k in data[2:]))
        return env['base'](kind, data) & live
