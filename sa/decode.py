"""Decoding of public keys: which strings are accepted and which point is delivered.

The routine is followed one path at a time.  Field operations are taken at the level of values (as for the
ladder); every decision is recorded with what it compares: canonical words of an element with the bytes of
the argument (canonicity), two elements, an element with zero, the lowest bit of an element (sign).  Each
path is then judged: rejection needs one of the specified reasons, acceptance needs all conditions
established, and the delivered coordinates are the specified polynomials in (x, y) for the root x whose
sign the path established.  A path that cannot be judged this way is confronted with operand values:
only a contradiction is reported."""
import build
from dom import Dom, V, Ptr, C, Poly, pconst
from interp import Engine, Mem, Obj
from rep import REPS, P255, P448
from fieldsem import Sem, Field, Lost, Wrong
from proto import PEngine, Paths, key, ONE
from ladder import MP
from ir import loc_str
import slots

M64 = (1 << 64) - 1
D255 = -121665 * pow(121666, -1, P255) % P255
D448 = -39081 % P448


class XField(Field):
    """exponents are exact integers"""

    def mexp(self, e):
        return e


class Run(Sem):
    def __init__(self, cfg, paths, G):
        self.paths = paths
        self.G = G
        m = build.module(cfg)
        d = Dom(True, maxterms=20000)
        e = PEngine(m, d)
        e.oracle = self.oracle
        Sem.__init__(self, cfg, e, (G,))
        p = self.F[G].p
        self.F[G] = self.f = XField(p)
        # the hooks made by Sem close over the old Field: make them again
        for path, fn in slots.field_table(m, G).items():
            if fn:
                w, op = path.split('.')[0], path.split('.')[-1]
                h = self.hook(G, w, op, fn)
                if h is not None:
                    e.callhook[fn] = h
                if op == 'ser':
                    e.callhook[fn] = self.h_ser(w)
                if op == 'cmp' and w.startswith('_1w'):
                    e.callhook[fn] = self.h_cmp(w)
                if op == 'sgn' and w.startswith('_1w'):
                    e.callhook[fn] = self.h_sgn(w)
        import re
        from fieldsem import RE
        for name, fu in m.funcs.items():
            k = RE.match(name)
            if k and not fu.decl and k.group(2) == G and name in e.callhook:
                h = self.hook(G, '_' + k.group(3), k.group(1), name)
                if h is not None and name not in slots.field_table(m, G).values():
                    e.callhook[name] = h
            if re.match('modp_Fp%s_1w_fullradix$' % G[2:].replace('25519', '255'), name) and not fu.decl:
                e.callhook[name] = self.h_modp
        for n in ('memcmp', 'bcmp'):
            e.callhook[n] = self.h_memcmp
        self.forcemasks(d)
        self.truth = {}
        self.dec = []          # decisions: (meaning, outcome, poly)
        self.canonsets = {}    # set -> words as V
        self.eqmemo = {}
        self.mem = Mem()

    def forcemasks(self, d):
        """a truth value that becomes a mask (0 - b, b - 1) is decided at once: one path per value"""
        sub, neg, add = d.sub, d.neg, d.add

        def truth(b):
            if not isinstance(b, V) or b.isc() or b.lo != 0 or b.hi != 1 or b.p is None:
                return b
            try:
                return C(1 if self.oracle(b, None) else 0)
            except Lost:
                return b

        def isc(a, v):
            return isinstance(a, V) and a.isc() and a.lo in v

        def sub2(a, b):
            if isc(a, (0,)):
                b = truth(b)
            elif isc(b, (1,)):
                a = truth(a)
            return sub(a, b)

        def add2(a, b):
            if isc(b, (-1, M64, (1 << 32) - 1)):
                a = truth(a)
            return add(a, b)
        d.sub, d.add = sub2, add2
        d.neg = lambda a: neg(truth(a))

    # ---- canonical elements: word 0 is bit + 2 * rest
    def putcanon(self, mem, p, F, ins=None):
        nw = 4 if self.G == 'Fp25519' else 7
        o, off = self.loc(p)
        ob = mem.w(o)
        if isinstance(ob.size, int) and off + 8 * nw > ob.size:
            raise Wrong('bounds', 'a canonical element is written past the end of %s' % ob.name, loc_str(ins) if ins else '')
        k = len(self.sets)
        vs = self.newset(self.G, [0, 1] + [64 * i for i in range(1, nw)], F, [1, M64 >> 1] + [M64] * (nw - 1), 'canon')
        w0 = self.d.add(vs[0], self.d.mul(C(2), vs[1]))
        ws = [V(0, M64, w0.p, None)] + vs[2:]
        self.canonsets[k] = [w.p for w in ws]
        for i, w in enumerate(ws):
            self.e.wr(ob, off + 8 * i, 8, w)
        return k

    def h_ser(self, w):
        rep = REPS[self.G][w]

        def h(e, mem, a, ins):
            if rep.n != 1:
                raise Lost('serialisation of several lanes')
            self.used.add((self.G, w, 'ser'))
            x, b = self.get(mem, a[1], rep, self.G, 0, ins)
            self.limits(rep, b, ins)
            self.putcanon(mem, a[0], x, ins)
            return C(0)
        return h

    def limits(self, rep, b, ins):
        if rep.full:
            return
        from fieldsem import ratios
        u = max(ratios([b], rep.widths))
        lim = 3.2 if self.G == 'Fp25519' else 5.1
        if u > lim:
            raise Wrong('bounds', 'an element is serialised or compared whose limbs reach %.2f units (specified up to %.1f)' % (u, lim), loc_str(ins) if ins else '')

    def h_modp(self, e, mem, a, ins):
        self.used.add((self.G, '_1w_full', 'ser'))
        x, _ = self.get(mem, a[0], REPS[self.G]['_1w_full'], self.G, 0, ins)
        self.putcanon(mem, a[0], x, ins)
        return C(0)

    def h_cmp(self, w):
        rep = REPS[self.G][w]

        def h(e, mem, a, ins):
            self.used.add((self.G, w, 'cmp'))
            self.e.count('field routine calls')
            x, bx = self.get(mem, a[0], rep, self.G, 0, ins)
            y, by = self.get(mem, a[1], rep, self.G, 0, ins)
            self.limits(rep, bx, ins)
            self.limits(rep, by, ins)
            r = self.decide_eq(x, y)
            return C(0) if r else self.d.fresh(1, 255, 'differs')
        return h

    def h_sgn(self, w):
        rep = REPS[self.G][w]

        def h(e, mem, a, ins):
            self.used.add((self.G, w, 'sgn'))
            x, bx = self.get(mem, a[0], rep, self.G, 0, ins)
            self.limits(rep, bx, ins)
            o = Obj('sgn%d' % len(self.sets), 64, 'heap', 'undef')
            mem.add(o)
            k = self.putcanon(mem, Ptr({o.name: C(0)}), x, ins)
            a0, = [q for q, (s, i) in self.limb.items() if s == k and i == 0]
            return V(0, 1, Poly({(a0,): 1}), 1)
        return h

    def h_memcmp(self, e, mem, a, ins):
        n = self.d.nu(a[2], 64)
        if not n.isc():
            raise Lost('comparison of unknown length')
        n = n.lo
        (o, x), (o2, y) = self.loc(a[0]), self.loc(a[1])
        g = 8 if n % 8 == 0 else 1
        prs = []
        for i in range(0, n, g):
            u, v = (self.e.rd(self.e.getobj(mem, q), z + i, g) for q, z in ((o, x), (o2, y)))
            if not isinstance(u, V) or not isinstance(v, V):
                raise Lost('comparison of bytes without a relation')
            if u.u or v.u:
                raise Wrong('undefined', 'uninitialised bytes are compared', loc_str(ins) if ins else '')
            u, v = self.d.nu(u, 8 * g), self.d.nu(v, 8 * g)
            if u.p is None or v.p is None:
                raise Lost('comparison of bytes without a relation')
            prs.append((u.p, v.p))
        r = self.decide_pairs(prs)
        return C(0) if r else self.d.fresh(1, 255, 'differs')

    # ---- decisions
    def choose(self, meaning, memokey, neg=False):
        r = self.eqmemo.get(memokey)
        if r is None:
            r = self.eqmemo[memokey] = self.paths.choose(2) == 0
            self.dec.append((meaning, r))
        return r

    def decide_eq(self, x, y):
        """x == y in the field?"""
        f = self.f
        if x == y:
            return True
        c, m = f.mono(x)
        k, n = f.mono(y)
        if not c or not k:
            c, m = (c, m) if c else (k, n)
            return self.choose(('zero', {((), m): 1}), ('zero', m))
        if m == n:
            return self.choose(('zero', {((), m): 1}), ('zero', m))
        # ratio: x / y = q * prod v^e
        R = dict(m)
        for v, e in n:
            R[v] = R.get(v, 0) - e
        R = tuple(sorted((v, e) for v, e in R.items() if e))
        q = c * pow(k, -1, f.p) % f.p
        if tuple((v, -e) for v, e in R) < R:
            R, q = tuple((v, -e) for v, e in R), pow(q, -1, f.p)
            x, y, m, n = y, x, n, m
        return self.choose(('ratio', x, y, q, R, m, n), ('ratio', q, R))

    def decide_pairs(self, prs):
        sides = [self.reading([a for a, _ in prs], [b for _, b in prs]), self.reading([b for _, b in prs], [a for a, _ in prs])]
        for s in sides:
            if s is None:
                continue
            k, other = s
            F = self.sets[k][2]
            p = self.f.p
            if all(o.isconst() for o in other):
                n = sum(o.const() << (64 * i) for i, o in enumerate(other))
                if n >= p:
                    return False
                return self.decide_eq(F, self.f.const(n))
            o = next((j for j, ws in self.canonsets.items() if ws == other), None)
            if o is not None:
                return self.decide_eq(F, self.sets[o][2])
            P = Poly({})
            for i, x in enumerate(other):
                P = P.add(x.scale(1 << (64 * i)))
            try:
                v = self.value(self.G, P)
            except Lost:
                continue
            if v == F:
                return self.choose(('canon', P), ('canon', key(P)))
        for a, b in prs:
            lo, hi = self.d.prange(a.add(b, -1).d)
            if lo is not None and (lo > 0 or hi < 0):
                return False
        return self.choose(('pairs', prs), ('pairs', frozenset((key(a), key(b)) for a, b in prs)))

    def reading(self, xs, ys):
        """(set, ys as words) when the xs are the words (or bytes) of one canonical element"""
        for k, ws in self.canonsets.items():
            if len(xs) == len(ws) and set(map(key, xs)) == set(map(key, ws)):
                by = {key(x): y for x, y in zip(xs, ys)}
                return k, [by[key(w)] for w in ws]
            if len(xs) == 8 * len(ws):
                by = {}
                for x, y in zip(xs, ys):
                    by[key(x)] = y
                out = []
                for w in ws:
                    v = V(0, M64, w, None)
                    q = Poly({})
                    for j in range(8):
                        b = self.d.bits(v, 8 * j, 8 * j + 8, 64)
                        if b.p is None or key(b.p) not in by:
                            q = None
                            break
                        q = q.add(by[key(b.p)].scale(1 << (8 * j)))
                    if q is None:
                        out = None
                        break
                    out.append(q)
                if out:
                    return k, out
        return None

    def flat(self, x):
        """words or bytes whose joint vanishing x == 0 means: list of pairs, or None"""
        out = []
        for q in self.d.orset(x):
            s = self.d.xorset(q)
            if len(s) == 2:
                a, b = sorted(s, key=lambda z: len(z.d))
                out.append((a, b))
            elif len(s) == 1:
                out.append((q, Poly({})))
            else:
                return None
        return out

    def oracle(self, c, t):
        p = c.p
        if p is None:
            raise Lost('a decision without a relation at %s' % (loc_str(t) if t else '?'))
        k, k1 = key(p), key(ONE.add(p, -1))
        if k in self.truth:
            return self.truth[k]
        if k1 in self.truth:
            return not self.truth[k1]
        mean, neg = self.e.mean.get(k), False
        if mean is None:
            mean, neg = self.e.mean.get(k1), True
        r = None
        if mean is None:
            # the condition is itself a bit of an element
            r = self.bit(p, pconst(1))
        elif mean[0] == 'eq':
            x, y = mean[1], mean[2]
            r = self.bit(x, y)
            if r is None:
                prs = self.flat(x) if y.isconst() and y.const() == 0 else [(x, y)]
                if prs is None:
                    raise Lost('a decision on a combination of words at %s' % (loc_str(t) if t else '?'))
                r = self.decide_pairs(prs)
            r = r != neg
        else:
            r = self.choose(('order', mean), ('order', k)) != neg
        if r is None:
            raise Lost('a decision of unknown meaning at %s' % (loc_str(t) if t else '?'))
        self.truth[k] = r
        return r

    def bit(self, x, y):
        """decides x == y when that is the value of the lowest bit of an element"""
        P = x.add(y, -1)
        at = {a for m in P.d for a in m}
        if len(at) != 1:
            return None
        a, = at
        if a not in self.limb:
            return None
        k, i = self.limb[a]
        if k not in self.canonsets or i != 0:
            return None
        z = [Poly(self.d._subst(P.d, {a: v})) for v in (0, 1)]
        if not all(q.isconst() for q in z):
            return None
        z = [q.const() == 0 for q in z]
        if z[0] == z[1]:
            return z[0]
        # outcome true: the bit equals the value v
        F = self.sets[k][2]
        one = self.choose(('odd', F), ('odd', key2(F)))
        return z[1] if one else z[0]

    # ---- numeric reading
    def number(self, P, env):
        """value of an integer polynomial for given data bits; None when it depends on something unknown"""
        r = 0
        for m, c in P.d.items():
            for a in m:
                v = self.numatom(a, env)
                if v is None:
                    return None
                c *= v
            r += c
        return r

    def numatom(self, a, env):
        if a in env['a']:
            return env['a'][a]
        at = self.d.atoms[a]
        v = None
        if a in self.limb:
            k, i = self.limb[a]
            if k in self.canonsets:
                n = self.fieldnum(self.sets[k][2], env)
                v = n & 1 if i == 0 else (n & M64) >> 1 if i == 1 else (n >> (64 * (i - 1))) & M64
        elif at.E is not None:
            n = self.number(at.E, env)
            v = None if n is None else n >> at.k
        elif at.ors is not None:
            ns = [self.number(q, env) for q in at.ors]
            if None not in ns:
                v = 0
                for n in ns:
                    v |= n
        elif at.xor is not None:
            ns = [self.number(q, env) for q in at.xor]
            if None not in ns:
                v = 0
                for n in ns:
                    v ^= n
        env['a'][a] = v
        return v

    def fieldnum(self, F, env):
        if env['f'] is None:
            f = self.f
            inv = {}
            for kk, v in f.ints.items():
                n = 0
                for a, c in kk:
                    x = self.numatom(a, env)
                    if x is None:
                        raise Lost('an element of unknown value')
                    n += c * x
                inv[v] = n % f.p
            env['f'] = inv
        try:
            return self.f.evaluate(F, env['f'], {})
        except KeyError:
            raise Lost('an element of unknown value')

    def holds(self, env):
        """do the decisions of this path agree with the operand?"""
        for mean, r in self.dec:
            k = mean[0]
            if k == 'zero':
                t = self.fieldnum(mean[1], env) == 0
            elif k == 'ratio':
                t = self.fieldnum(mean[1], env) == self.fieldnum(mean[2], env)
            elif k == 'odd':
                t = bool(self.fieldnum(mean[1], env) & 1)
            elif k == 'canon':
                t = self.number(mean[1], env) < self.f.p
            elif k == 'pairs':
                t = True
                for a, b in mean[1]:
                    u, v = self.number(a, env), self.number(b, env)
                    if u is None or v is None:
                        raise Lost('a comparison of unknown bytes')
                    t = t and u == v
            elif k == 'order':
                u, v = self.number(mean[1][1], env), self.number(mean[1][2], env)
                if u is None or v is None:
                    raise Lost('a comparison of unknown integers')
                t = {'lt': u < v, 'le': u <= v, 'eq': u == v}[mean[1][0]]
            else:
                raise Lost('a decision of unknown meaning')
            if t != r:
                return False
        return True


def key2(F):
    return frozenset(F.items())


# ---- specification
def specroot(G, y):
    """root x with even canonical form, or None"""
    p = P255 if G == 'Fp25519' else P448
    u = (y * y - 1) % p
    v = (D255 * y * y + 1) % p if G == 'Fp25519' else (D448 * y * y - 1) % p
    w = u * pow(v, -1, p) % p
    if G == 'Fp25519':
        x = pow(w, (p + 3) // 8, p)
        if x * x % p != w:
            x = x * pow(2, (p - 1) // 4, p) % p
    else:
        x = pow(w, (p + 1) // 4, p)
    if x * x % p != w:
        return None
    return min(x, p - x) if (min(x, p - x) & 1) == 0 or x == 0 else max(x, p - x)


def expected(R, G, x, y):
    """(X, Y, T, Z) delivered for the root x (with the wanted sign), in a ring R: the negated point"""
    n = R.scale(x, -1)
    if G == 'Fp25519':
        return n, y, R.mul(n, y), R.const(1)
    a = R.scale(R.mul(n, y), 2)
    xx, yy = R.mul(x, x), R.mul(y, y)
    b, c = R.add(yy, xx), R.add(yy, xx, -1)
    dd = R.add(R.const(2), b, -1)
    return R.mul(a, dd), R.mul(b, c), R.mul(a, b), R.mul(c, dd)


class Zp:
    def __init__(self, p):
        self.p = p

    def const(self, c):
        return c % self.p

    def add(self, a, b, k=1):
        return (a + k * b) % self.p

    def mul(self, a, b):
        return a * b % self.p

    def scale(self, a, k):
        return a * k % self.p


# ---- one path against the specification, symbolically
class Gap(Exception):
    pass


def big(m):
    return any(e > 64 for _, e in m)


def judge(s, sign, high, ret, outs):
    """raises Gap when the path is not understood; contradictions come from operand values"""
    f, G, p = s.f, s.G, s.f.p
    canon = next((r for m, r in s.dec if m[0] == 'canon'), None)
    if any(m[0] in ('pairs', 'order') for m, r in s.dec):
        raise Gap('a decision that is none of the specified ones')
    yv = f.ints.get(frozenset((a, c) for a, c in s.ybits.items()))
    if high or canon is False:
        if ret != -1:
            raise Gap('a string that is not canonical is not refused')
        return 'not canonical'
    ratios = [(m, r) for m, r in s.dec if m[0] == 'ratio']
    odd = [(m[1], r) for m, r in s.dec if m[0] == 'odd']
    zero = [(m[1], r) for m, r in s.dec if m[0] == 'zero']
    if yv is None:
        raise Gap('y is not read as the integer of the string')
    y1 = f.var(yv)
    yy = f.mul(y1, y1)
    U = f.add(yy, f.const(-1))
    Vv = f.add(f.scale(yy, D255), f.const(1)) if G == 'Fp25519' else f.add(f.scale(yy, D448), f.const(-1))
    (uc, um), (vc, vm) = f.mono(U), f.mono(Vv)

    def norm(F):
        """const * u^i v^j -> (const, i, j) or None"""
        c, m = f.mono(F)
        if not c:
            return None
        i = j = 0
        for x, e in m:
            if um == ((x, 1),):
                i = e
            elif vm == ((x, 1),):
                j = e
            else:
                return None
        # the named variables are u/uc, v/vc
        return c * pow(uc, -i, p) * pow(vc, -j, p) % p, i, j

    # facts v X^2 == u (True/False) with ratio u^i v^j
    facts = {}
    for m, r in ratios:
        a, b = norm(m[1]), norm(m[2])
        if a is None or b is None:
            raise Gap('a comparison of elements that are not products of powers of u and v')
        # one side is u up to sign, the other v*X^2
        for (A, B) in ((a, b), (b, a)):
            if (B[1], B[2]) == (1, 0) and A[1] >= 1:
                facts[(A[0] * pow(B[0], -1, p) % p, A[1], A[2])] = r
                break
        else:
            raise Gap('a comparison that does not involve u')
    if ret == -1:
        # reasons: x = 0 with sign; no root
        if sign and any(r and len(F) == 1 for F, r in zero):
            for F, r in zero:
                n = norm(F)
                if r and n is not None and n[1] >= 1 and any(t and (i, j) == (2 * n[1], 2 * n[2] + 1) for (k, i, j), t in facts.items()):
                    # v*x^2 = k*u and x = 0: u = 0, so that zero is the root
                    return 'x is zero but has a sign'
        for (k, i, j), r in facts.items():
            if r:
                continue
            if G == 'Fp448':
                h = (p - 1) // 2
                if k == 1 and (i - 1) % h == 0 and (i - 1) // h % 2 and j % h == 0 and j // h % 2:
                    return 'no root'
            else:
                h = (p - 1) // 4
                if (i - 1) % h == 0 and (i - 1) // h % 2 and j % h == 0 and j // h % 2 and facts.get((p - k, i, j)) is False and k in (1, p - 1):
                    return 'no root'
        raise Gap('a canonical string is refused although no missing root was established')
    if ret != 0:
        raise Gap('the result is neither success nor failure')
    if canon is None:
        raise Gap('success without knowing that the string is canonical')
    xs = [(F, r) for F, r in odd if len(F) == 1]
    if len(odd) != 1 or not xs:
        raise Gap('success without knowing the sign of the root')
    F, par = xs[0]
    n = norm(F)
    if n is None or n[1] < 1 or not isroot(facts, n, p):
        raise Gap('success without knowing that v*x^2 = u')
    nz = any((not r) and norm(Z) is not None and norm(Z)[1:] == n[1:] for Z, r in zero)
    iz = any(r and norm(Z) is not None and norm(Z)[1:] == n[1:] for Z, r in zero)
    if sign and not nz:
        raise Gap('success with a set sign bit without knowing that x is not zero')
    if iz and par:
        return 'impossible'
    # x := F; the wanted root is +x or -x
    sg = 1 if par == bool(sign) else -1
    if sg < 0 and iz:
        return 'impossible'
    R = MP(p, 2)
    X, Y = R.var(0), R.var(1)
    xmono = next(iter(F))[1]
    xc = next(iter(F.values()))

    def conv(G_, depth=0):
        if depth > 400:
            raise Gap('a coordinate too deep')
        r = {}
        for (b, m), c in G_.items():
            if b:
                raise Gap('a coordinate depends on a bit')
            t = R.const(c)
            md = dict(m)
            q = 0
            while big(md.items()) and all(md.get(v, 0) >= e for v, e in xmono):
                for v, e in xmono:
                    md[v] -= e
                q += 1
            for _ in range(q):
                t = R.scale(R.mul(t, X), pow(xc, -1, p))
            for v, e in md.items():
                if e > 16:
                    raise Gap('a coordinate is not a polynomial in x and y')
                w = Y if v == yv else conv(f.defs[v], depth + 1) if f.defs[v] is not None else None
                if w is None:
                    raise Gap('a coordinate depends on another input')
                for _ in range(e):
                    t = R.mul(t, w)
            r = R.add(r, t)
        return r

    want = expected(R, G, R.scale(X, sg), Y)
    got = [conv(o) for o in outs]
    k = None
    for g, w in zip(got, want):
        q = R.prop(g, w)
        if q is None or (k is not None and q != k):
            raise Gap('a coordinate differs from the specified polynomial')
        k = q
    return 'accepted'


def isroot(facts, n, p):
    """a fact v*X^2 == u for X = n[0] u^n[1] v^n[2]"""
    return facts.get((n[0] * n[0] % p, 2 * n[1], 2 * n[2] + 1)) is True


FUN = {'ed25519': ('point_decoding_ed25519', 'Fp25519', 32), 'ed448': ('point_decoding_ed448', 'Fp448', 57)}
LANES = {'4w': ('X', 'Y', 'T', 'Z'), '2w': ('X', 'Y', 'T', 'Z')}


def jobs():
    r = []
    for cfg in build.CONFIGS:
        m = build.module(cfg)
        for n, (fn, G, nb) in FUN.items():
            if fn not in m.funcs or m.funcs[fn].decl:
                raise Lost('%s is gone' % fn)
            for form in ('4w', '2w'):
                for sign in (0, 1):
                    r.append((cfg, 'decode', '%s.%s.%d' % (n, form, sign)))
                    if n == 'ed448':
                        r.append((cfg, 'decode', '%s.%s.%d.high' % (n, form, sign)))
    return r


def runpath(cfg, paths, fn, G, nb, form, sign, high):
    s = Run(cfg, paths, G)
    e, d = s.e, s.d
    o = Obj('A', nb, 'param', 'input')
    o.info = 'argument A'
    s.mem.add(o)
    s.ybits = {}
    nbits = 255 if G == 'Fp25519' else 448
    for i in range(nb):
        p = {}
        hi = 0
        for j in range(8):
            n = 8 * i + j
            if n < nbits:
                a = d.atom(0, 1, 'A.%d' % n)
                s.data.add(a)
                s.ybits[a] = 1 << n
                p[(a,)] = 1 << j
                hi |= 1 << j
        if i == nb - 1:
            if G == 'Fp25519':
                if sign:
                    p[()] = 128
                    hi |= 128
            elif high:
                h = d.fresh(1, 127, 'high')
                s.high = h
                p = dict(h.p.d)
                if sign:
                    p[()] = 128
                hi = 127 + 128 * sign
            else:
                if sign:
                    p[()] = 128
                hi = 128 * sign
        lo = p.get((), 0)
        o.cells[i] = (1, V(lo, hi, Poly(p), hi))
    null = C(0)
    w = '_4w_red' if form == '4w' else '_2w_red'
    rep = REPS[G][w]
    size = rep.size if form == '4w' else 2 * rep.size
    P = Obj('P', size, 'param', 'undef', align=32)
    s.mem.add(P)
    pp = Ptr({'P': C(0)})
    args = [pp, null, Ptr({'A': C(0)})] if form == '4w' else [null, pp, Ptr({'A': C(0)})]
    ret, mem = e.call(fn, args, s.mem)
    r = d.ns(ret, 32)
    s.ret = r.lo if r.isc() else None
    s.outs = []
    s.lim = 0
    for x in list(e.events.values())[:2]:
        raise Wrong('fault', repr(x), fn)
    if s.ret == 0:
        for k in range(4):
            q, el = (pp, k) if form == '4w' else (Ptr({'P': C(rep.size * (k // 2))}), k % 2)
            F, b = s.get(mem, q, rep, G, el)
            s.outs.append(F)
            s.lim = max([s.lim] + [x / (1 << kk) for x, kk in zip(b, rep.widths)])
    return s


def samples(G, sign, high):
    import random
    rnd = random.Random(11)
    p = P255 if G == 'Fp25519' else P448
    nbits = 255 if G == 'Fp25519' else 448
    ys = [0, 1, 2, 3, 4, 5, p - 1, p - 2, p, p + 1, p + 2, (1 << nbits) - 1, (1 << nbits) - 2, 1 << 14, 1 << 20, 1 << 28, 1 << 56, 1 << 224, 1 << (nbits - 1)]
    ys += [rnd.randrange(p, 1 << nbits) for _ in range(4)] + [rnd.getrandbits(nbits) for _ in range(40)] + [rnd.getrandbits(rnd.choice([16, 64, 128])) for _ in range(10)]
    ys += [(1 << nbits) - 1 - rnd.getrandbits(rnd.choice([3, 4, 8, 64, 200])) for _ in range(10)]
    ys += list(range(p, min(p + 40, 1 << nbits)))
    ys += list(special(G, p, rnd))
    for y in ys:
        yield y


def special(G, p, rnd):
    """operands for which words or bytes of a canonical element vanish or agree without the element doing so"""
    nw, nb = (4, 32) if G == 'Fp25519' else (7, 56)
    pats = []
    for i in range(nw):
        pats.append((64 * i, min(64, 255 - 64 * i if G == 'Fp25519' else 64)))
    for i in range(nb):
        pats.append((8 * i, 8 if 8 * i + 8 <= p.bit_length() else 7))
    d = D255 if G == 'Fp25519' else D448
    I = pow(2, (p - 1) // 4, p) if G == 'Fp25519' else p - 1
    for sh, w in pats:
        got = 0
        for t in range(12):
            # x all zero outside the pattern
            x = (rnd.getrandbits(w) or 1) << sh
            # even roots are wanted too
            for z in (x, p - x):
                if G == 'Fp25519':
                    q = (1 + z * z) * pow(1 - d * z * z, -1, p) % p
                else:
                    q = (1 - z * z) * pow(1 - d * z * z, -1, p) % p
                y = sqrtmod(q, p)
                if y is not None:
                    got += 1
                    yield y
                    break
            if got == 3:
                break
        got = 0
        for t in range(20):
            # v*x^2 = c*u with c != 1 that agrees with u outside the pattern
            k = (rnd.getrandbits(w) or 1) << sh
            for c in {p - 1, I, p - I} - {1}:
                u = k * pow(c - 1, -1, p) % p
                y = sqrtmod((u + 1) % p, p)
                if y is not None and specroot(G, y) is None:
                    got += 1
                    yield y
            if got >= 4:
                break


def sqrtmod(q, p):
    if p % 4 == 3:
        x = pow(q, (p + 1) // 4, p)
    else:
        x = pow(q, (p + 3) // 8, p)
        if x * x % p != q:
            x = x * pow(2, (p - 1) // 4, p) % p
    return x if x * x % p == q else None


def decide(cfg, name, ob):
    parts = name.split('.')
    fn, G, nb = FUN[parts[0]]
    form, sign, high = parts[1], int(parts[2]), 'high' in parts
    paths = Paths(200)
    runs = []
    gaps = []
    p = P255 if G == 'Fp25519' else P448
    kinds = set()
    while True:
        paths.start()
        s = runpath(cfg, paths, fn, G, nb, form, sign, high)
        runs.append(s)
        try:
            k = judge(s, sign, high, s.ret, s.outs)
            kinds.add(k)
            ob('path %d: %s' % (paths.n, k), True, '', fn)
        except Gap as ex:
            gaps.append((paths.n, str(ex)))
        if s.ret == 0:
            ob('limbs', s.lim <= 1.2, 'coordinates with limbs up to %.2f units are delivered' % s.lim, fn)
        if not paths.next():
            break
    s = runs[-1]
    s.paths = paths.n
    s.undecided = []
    for s2 in runs[:-1]:
        s.used |= s2.used
        for k, v in s2.calls.items():
            s.calls[k] = s.calls.get(k, 0) + v
    if not gaps:
        return s
    # operand values against the extracted decisions
    Z = Zp(p)
    n = 0
    for y in samples(G, sign, high):
        x = specroot(G, y) if y < p and not high else None
        ok = x is not None and not (x == 0 and sign)
        if ok and sign:
            x = p - x
        hit = 0
        for q, r in enumerate(runs):
            env = {'a': {}, 'f': None}
            for a, c in r.ybits.items():
                env['a'][a] = 1 if y & c else 0
            if high:
                (a,), = r.high.p.d
                env['a'][a] = 1 + (y * 7919) % 127
            if not r.holds(env):
                continue
            hit += 1
            n += 1
            desc = 'y = 0x%x, sign %d%s' % (y, sign, ', nonzero bits above y' if high else '')
            if (r.ret == 0) != ok or r.ret not in (0, -1):
                ob('decision', False, 'for %s the result is %s, specified is %s' % (desc, r.ret, 'success' if ok else 'failure'), fn)
                return s
            if r.ret == 0:
                got = [r.fieldnum(F, env) for F in r.outs]
                want = expected(Z, G, x, y % p)
                if not got[3] or any(g * want[3] % p != w * got[3] % p for g, w in zip(got[:2], want[:2])) or got[2] * got[3] % p != got[0] * got[1] % p:
                    ob('point', False, 'for %s another point is delivered' % desc, fn)
                    return s
        if hit != 1:
            raise Lost('%d paths fit one operand' % hit)
    if n < 40:
        raise Lost(gaps[0][1])
    s.undecided = [('path %d' % q, '%s; no contradiction on %d operands' % (w, n)) for q, w in gaps]
    return s


if __name__ == '__main__':
    import sys, time
    for n in sys.argv[2:]:
        t = time.time()
        try:
            s = decide(sys.argv[1], n, lambda i, ok, dt='', w='': print(n, i, ok, '' if ok else dt[:400]))
            print('undecided', s.undecided, 'paths', s.paths)
        except (Lost, Wrong) as ex:
            print(n, type(ex).__name__, ex, getattr(ex, 'where', ''))
        print('%.1fs' % (time.time() - t))
