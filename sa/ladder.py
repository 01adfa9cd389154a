"""X25519 / X448 shared secret: the whole function against the RFC 7748 ladder."""
import os, sys, time
import build, api, slots
from dom import Dom, V, Ptr, C, Poly
from interp import Engine, Mem, Obj
from fieldsem import Sem, Lost, Wrong, bitparam

FUN = {'X25519': ('Fp25519', 32, 486662), 'X25519_x64': ('Fp25519', 32, 486662), 'X448': ('Fp448', 56, 156326)}


class MP:
    """Multivariate polynomials over Z/p as {exponents: coefficient}."""
    def __init__(self, p, n):
        self.p, self.n = p, n

    def var(self, i):
        return {tuple(int(j == i) for j in range(self.n)): 1}

    def const(self, c):
        return {(0,) * self.n: c % self.p} if c % self.p else {}

    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            x = (r.get(m, 0) + k * c) % self.p
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r

    def mul(self, a, b):
        r = {}
        for m, c in a.items():
            for n, k in b.items():
                x = tuple(map(int.__add__, m, n))
                r[x] = (r.get(x, 0) + c * k) % self.p
        return {m: c for m, c in r.items() if c}

    def scale(self, a, k):
        return {m: c * k % self.p for m, c in a.items()} if k % self.p else {}

    def prop(self, a, b):
        """constant k with a = k*b, or None"""
        if not b or not a or len(a) != len(b):
            return None
        m = next(iter(b))
        if m not in a:
            return None
        k = a[m] * pow(b[m], -1, self.p) % self.p
        return k if all(a.get(m) == c * k % self.p for m, c in b.items()) else None


def dbl(R, x, z, A):
    xx, zz, xz = R.mul(x, x), R.mul(z, z), R.mul(x, z)
    d = R.add(xx, zz, -1)
    return R.mul(d, d), R.scale(R.mul(xz, R.add(R.add(xx, zz), R.scale(xz, A))), 4)


def dadd(R, x2, z2, x3, z3, u):
    """sum of two points whose difference has x-coordinate u (RFC 7748 scaling)"""
    a = R.mul(R.add(x3, z3, -1), R.add(x2, z2))
    b = R.mul(R.add(x3, z3), R.add(x2, z2, -1))
    s, t = R.add(a, b), R.add(a, b, -1)
    return R.mul(s, s), R.mul(u, R.mul(t, t))


class Cuts:
    """Live values of the element graph at a given time."""

    def __init__(self, f, inputs, out):
        self.f = f
        self.inputs = set(inputs)
        self.n = len(f.defs)
        self.last = {}
        for v, df in enumerate(f.defs):
            for (b, m) in (df or ()):
                for x, _ in m:
                    self.last[x] = v
        for (b, m) in out:
            for x, _ in m:
                self.last[x] = self.n
        self.by = [[m for (b, m) in df] if df else [] for df in f.defs] + [[m for (b, m) in out]]

    def live(self, T, since):
        """Monomials over variables older than T that younger definitions use."""
        r = set()
        act = [v for v in range(max(0, since - 64), T) if self.last.get(v, -1) >= T and v not in self.inputs]
        if not act or len(act) > 14:
            return None
        for v in range(T, max(self.last[v] for v in act) + 1):
            for m in self.by[v]:
                if any(x < T and x not in self.inputs for x, _ in m):
                    r.add(tuple((x, e) for x, e in m if x < T))
        return r


class Expand:
    """Rewriting of values over the live values of an earlier cut."""

    def __init__(self, f, R, base, frozen, inputs, assign):
        self.f, self.R, self.base, self.frozen, self.inputs, self.assign = f, R, base, frozen, inputs, assign
        self.memo = {}

    def mono(self, m):
        R = self.R
        r = R.const(1)
        if any(x < self.frozen and x not in self.inputs for x, _ in m):
            hi = tuple((x, e) for x, e in m if x < self.frozen)
            if hi not in self.base:
                raise KeyError('not a live value')
            r = self.base[hi]
            m = tuple((x, e) for x, e in m if x >= self.frozen)
        for x, e in m:
            y = self.inputs[x] if x in self.inputs else self.var(x)
            if e > 64:
                raise KeyError('large exponent')
            for _ in range(e):
                r = R.mul(r, y)
        return r

    def F(self, F):
        r = {}
        for (b, m), c in F.items():
            for x in b:
                if x not in self.assign:
                    raise KeyError('depends on another bit')
            if all(self.assign[x] for x in b):
                r = self.R.add(r, self.mono(m), c)
        return r

    def var(self, v):
        r = self.memo.get(v)
        if r is None:
            r = self.memo[v] = self.F(self.f.defs[v])
        return r


def ushift(R, a, b):
    """a = k * u^j * b with u the first variable; -> (k, j) or None"""
    if not a or not b:
        return None
    j = min(m[0] for m in a) - min(m[0] for m in b)
    c = {(m[0] + j,) + m[1:]: k for m, k in b.items()} if j >= 0 else None
    if c is None:
        return None
    k = R.prop(a, c)
    return None if k is None else (k, j)


def targets(R, st, nb, A, u):
    """x-only coordinates of (2m+nb)P, (2m+nb+1)P from those of mP, (m+1)P"""
    (x1, z1), (x2, z2) = st
    s = dadd(R, x1, z1, x2, z2, u)
    return ((dbl(R, x1, z1, A), s), (s, dbl(R, x2, z2, A)))[nb]


def match(R, vals, want, shift):
    """the two wanted pairs as (i, j, k): vals[i] : k*vals[j], up to a power of u"""
    out, res = [], []
    for X, Z in want:
        hit = None
        for i, a in enumerate(vals):
            for j, b in enumerate(vals):
                if i == j or i in out or j in out:
                    continue
                k = ushift(R, a, X)
                if k is None or (k[1] and not shift):
                    continue
                l = ushift(R, b, Z)
                if l is not None and l[1] == k[1]:
                    hit = (i, j, k[0] * pow(l[0], -1, R.p) % R.p)
                    break
            if hit:
                break
        if not hit:
            return None
        out += hit[:2]
        res.append(hit)
    return tuple(res)


def verify(f, out, uvar, bits, A, ob):
    """The element graph of `out` computes the ladder for the scalar bits (top first: 0, 1 or a boolean).
    ob(id, ok, detail, where) receives one obligation per step."""
    R = MP(f.p, 5)
    u = R.var(0)
    inputs = {uvar: u}
    cuts = Cuts(f, inputs, out)
    bl = list(bits)
    if bl[0] != 1:
        raise Lost('the leading scalar bit is not fixed')
    # state: roles[value of the last bit] = indices into live; None: still the base point itself
    live, roles, T, last = None, None, 0, 1
    m1 = ((u, R.const(1)), dbl(R, u, R.const(1), A))
    for k in range(1, len(bl)):
        nbit = bl[k]
        final = k == len(bl) - 1
        nbs = (nbit,) if nbit in (0, 1) else (0, 1)
        pbs = [None] if roles is None else sorted(roles)
        found = None
        why = ''
        for T2 in ([cuts.n] if final else range(T + 1, min(cuts.n, T + 60))):
            lv = None
            if not final:
                lv = cuts.live(T2, T)
                if lv is None or len(lv) != 4:
                    continue
                lv = sorted(lv)
            nr = {}
            try:
                for nb in nbs:
                    for pb in pbs:
                        asg = {}
                        if nbit not in (0, 1):
                            asg[nbit[0]] = nb
                        if last not in (0, 1):
                            asg[last[0]] = pb
                        base = {m: R.var(i + 1) for i, m in enumerate(live)} if live else {}
                        ex = Expand(f, R, base, T, inputs, asg)
                        st = m1 if roles is None else tuple((R.var(i + 1), R.scale(R.var(j + 1), c)) for i, j, c in roles[pb])
                        want = targets(R, st, nb, A, u)
                        if final:
                            X, Z = outpair(f, out, ex)
                            kx = R.prop(X, want[0][0])
                            ok = kx is not None and kx == R.prop(Z, want[0][1])
                            if not ok:
                                raise KeyError('the result is not the x-coordinate of the last multiple')
                            nr[nb] = ()
                            continue
                        vals = [ex.mono(m) for m in lv]
                        r = match(R, vals, want, roles is None)
                        if r is None or nr.get(nb, r) != r:
                            raise KeyError('the live values are not the next pair of multiples')
                        nr[nb] = r
            except KeyError as ex:
                why = why or str(ex)
                continue
            found = (T2, lv, nr)
            break
        where = f.sites[min(T + 8, len(f.sites) - 1)]
        ob('step %d' % (len(bl) - 1 - k), bool(found), 'scalar bit %d: %s' % (len(bl) - 1 - k, why or 'no pair of multiples is formed'), where)
        if not found:
            return False
        T, live, roles = found
        last = nbit
    return True


def outpair(f, out, ex):
    """numerator and denominator of a result X * Z^(p-2)"""
    if len(out) != 1:
        raise KeyError('the result is not a quotient')
    ((b, m), c), = out.items()
    if b:
        raise KeyError('the result is not a quotient')
    num, den = [], []
    for x, e in m:
        if e > f.p // 2:
            if e == f.p - 1:
                raise KeyError('numerator and denominator cancel')
            den.append((x, f.p - 1 - e))
        else:
            num.append((x, e))
    # live values must be recognised within numerator and denominator
    return ex.R.scale(ex.mono(tuple(num)), c), ex.mono(tuple(den))


def rfc(p, A, bits, u):
    """RFC 7748 section 5 on integers; bits: top first"""
    a24 = (A - 2) // 4
    x1, x2, z2, x3, z3, sw = u, 1, 0, u, 1, 0
    for kt in bits:
        if sw ^ kt:
            x2, x3, z2, z3 = x3, x2, z3, z2
        sw = kt
        a, b, c, d = x2 + z2, x2 - z2, x3 + z3, x3 - z3
        aa, bb, da, cb = a * a % p, b * b % p, d * a % p, c * b % p
        e = aa - bb
        x3, z3 = pow(da + cb, 2, p), x1 * pow(da - cb, 2, p) % p
        x2, z2 = aa * bb % p, e * (aa + a24 * e) % p
    if sw:
        x2, z2 = x3, z3
    return x2 * pow(z2, p - 2, p) % p


def interpret(cfg, g):
    """Run the field-level interpretation of one shared-secret function."""
    m = build.module(cfg)
    G, nb, A = FUN[g]
    fn = api.tables(m)[g].get('shared')
    if fn is None:
        raise Lost('%s.shared is not there' % g)
    d = Dom(True, maxterms=20000)
    e = Engine(m, d, max_undecided=1)
    sem = Sem(cfg, e)
    mem = Mem()
    pu, ub = bitparam(sem, mem, 'session key', nb, True)
    pk, kb = bitparam(sem, mem, 'private key', nb, False)
    o = Obj('shared secret', nb, 'param', 'undef')
    mem.add(o)
    ret, mem = e.call(fn, [Ptr({'shared secret': C(0)}), pu, pk], mem)
    return m, fn, G, sem, mem, ub, kb


def scalar(G, kb):
    """the clamped scalar, top bit first"""
    if G == 'Fp25519':
        return [1] + [(kb[i],) for i in range(253, 2, -1)] + [0, 0, 0]
    return [1] + [(kb[i],) for i in range(446, 1, -1)] + [0, 0]


def decide(cfg, g, ob):
    m, fn, G, sem, mem, ub, kb = interpret(cfg, g)
    f = sem.F[G]
    p = f.p
    A = FUN[g][2]
    for x in list(sem.e.events.values())[:3]:
        ob('fault', False, repr(x), fn)
    out = sem.canonical(mem, 'shared secret', 0, G)
    ob('result is canonical', out is not None, 'the shared secret is not shown to be the canonical bytes of one field element', fn)
    if out is None:
        return sem
    want = frozenset((a, pow(2, i, p)) for i, a in enumerate(ub[:255] if G == 'Fp25519' else ub))
    uv = f.ints.get(want)
    ob('u-coordinate', uv is not None and len(f.ints) == 1, 'the base point is not the session key read as a little-endian integer%s' % (' without its top bit' if G == 'Fp25519' else ''), fn)
    if uv is None:
        return sem
    bits = scalar(G, kb)
    fails = []

    def ob2(i, ok, d='', w=''):
        if ok:
            ob(i, ok)
        else:
            fails.append((i, d, w))
    ok = verify(f, out, uv, bits, A, ob2)
    if not ok:
        # the step-wise argument fails: exhibit a scalar and a base point for which the two differ
        import random
        rnd = random.Random(7748)
        nb = len(kb)
        for t in range(12):
            key = rnd.getrandbits(nb) if t > 2 else (0, (1 << nb) - 1, 1)[t]
            asg = {a: (key >> i) & 1 for i, a in enumerate(kb)}
            for u in (rnd.randrange(p), 9 if t else 0):
                got = f.evaluate(out, {uv: u}, asg)
                exp = rfc(p, A, [x if x in (0, 1) else asg[x[0]] for x in bits], u)
                if got != exp:
                    i, d, w = fails[0]
                    ob(i, False, '%s; differs from RFC 7748 for scalar 0x%x, u = 0x%x' % (d, key, u), w)
                    return sem
        raise Lost('%s: %s: the ladder steps are not recognised although no difference is known' % (g, fails[0]))
    return sem


if __name__ == '__main__':
    t = time.time()
    n = [0, 0]

    def ob(i, ok, d='', w=''):
        n[not ok] += 1
        if not ok:
            print('FAIL', i, d, w)
    sem = decide(sys.argv[2] if len(sys.argv) > 2 else 'adx', sys.argv[1], ob)
    print(sys.argv[1], n, time.time() - t)
