"""Fixed-base multiplication."""
import sys, time
import build, api
from dom import V, Ptr, C, Poly, pconst
from interp import Mem, Obj
from fieldsem import Sem, Field, Lost, Wrong, bitparam
from rep import REPS
from tdom import TDom, TEngine


class GField(Field):
    def __init__(self, p):
        Field.__init__(self, p)
        self.pairs = {}
        self.adj = {}

    def mul(self, f, g):
        c, m = self.mono(f)
        k, n = self.mono(g)
        c = c * k % self.p
        if not c:
            return {}
        mn = self.mmul(m, n)
        if m and n:
            self.pairs.setdefault(mn, []).append((m, n))
            if m != n:
                self.adj.setdefault(m, {})[n] = mn
                self.adj.setdefault(n, {})[m] = mn
        return {((), mn): c}


class GSem(Sem):
    def __init__(self, cfg, e, fields):
        Sem.__init__(self, cfg, e, ())
        for G in fields:
            self.F[G] = GField(REPS[G]['_1w_full'].p)
        self.tabvars = {G: {} for G in fields}   # field variable -> (case variable, residues)
        self.hookall(fields)

    def value(self, G, p, where=''):
        d, f = self.d, self.F[G]
        P = f.p
        by, rest = {}, {}
        for m, c in p.d.items():
            v = None
            for a in m:
                if a in d.tabs:
                    v = d.tabs[a][0]
                    break
            if v is None:
                rest[m] = c
            else:
                by.setdefault(v, {})[m] = c
        if len(by) == 1 and () in rest:
            by[v := next(iter(by))][()] = rest.pop(())
        r = Sem.value(self, G, Poly(rest), where)
        for v, q in by.items():
            tab = d.tabsonly(Poly(q), v)
            if tab is None:
                raise Lost('an operand mixes several digits')
            tab = tuple(x % P for x in tab)
            if len(set(tab)) == 1:
                r = f.add(r, f.const(tab[0]))
                continue
            key = (v, tab)
            x = f.ints.get(key)
            if x is None:
                x = f.ints[key] = f.input('digit%d' % v)
                self.tabvars[G][x] = key
            r = f.add(r, f.var(x))
        return r


# ------------------------------------------------------------------ curves
class Curve:
    """-x^2 + y^2 = 1 + d x^2 y^2 (a = -1) or x^2 + y^2 = 1 + d x^2 y^2 (a = 1) over Z/p"""

    def __init__(self, p, a, d, order):
        self.p, self.a, self.d, self.order = p, a % p, d % p, order
        self.zero = (0, 1)

    def on(self, P):
        p = self.p
        x, y = P
        return (self.a * x * x + y * y - 1 - self.d * x * x % p * y * y) % p == 0

    def add(self, P, Q):
        p = self.p
        (x1, y1), (x2, y2) = P, Q
        k = self.d * x1 * x2 % p * y1 % p * y2 % p
        return ((x1 * y2 + y1 * x2) * pow(1 + k, -1, p) % p, (y1 * y2 - self.a * x1 * x2) * pow(1 - k, -1, p) % p)

    def neg(self, P):
        return (-P[0] % self.p, P[1])

    def mul(self, k, P):
        R = self.zero
        if k < 0:
            k, P = -k, self.neg(P)
        while k:
            if k & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            k >>= 1
        return R


def sqrtm(a, p):
    if p % 4 == 3:
        r = pow(a, (p + 1) // 4, p)
    else:
        r = pow(a, (p + 3) // 8, p)
        if (r * r - a) % p:
            r = r * pow(2, (p - 1) // 4, p) % p
    return r if (r * r - a) % p == 0 else None


P25, P44 = (1 << 255) - 19, (1 << 448) - (1 << 224) - 1
L25 = (1 << 252) + 27742317777372353535851937790883648493
L44 = (1 << 446) - 13818066809895115352007386748515426880336692474882178609894547503885
D25 = -121665 * pow(121666, -1, P25) % P25
ED25 = Curve(P25, -1, D25, L25)
ED44 = Curve(P44, 1, -39081, L44)
TW44 = Curve(P44, -1, -39082, L44)


def base25():
    y = 4 * pow(5, -1, P25) % P25
    x = sqrtm((y * y - 1) * pow(D25 * y * y + 1, -1, P25) % P25, P25)
    return (x if x % 2 == 0 else P25 - x, y)


B25 = base25()
# RFC 8032 section 5.2
B44 = (224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710,
       298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660)


def dual(P):
    """the isogeny from the a = -1 curve to Ed448"""
    p = P44
    x, y = P
    s = (y * y - x * x) % p
    return (2 * x * y * pow(x * x + y * y, -1, p) % p, s * pow(2 - s, -1, p) % p)


def twbase():
    """the point T with dual(T) = 4 B, in the subgroup of order L"""
    p = P44
    x, y = B44
    # the isogeny from Ed448: (2xy/(y^2-x^2), (x^2+y^2)/(2-x^2-y^2))
    s = (x * x + y * y) % p
    T = (2 * x * y * pow(y * y - x * x, -1, p) % p, s * pow(2 - s, -1, p) % p)
    if not TW44.on(T):
        raise Lost('isogeny')
    for U in (T, TW44.neg(T)):
        if dual(U) == ED44.mul(4, B44) and TW44.mul(L44, U) == (0, 1):
            return U
    raise Lost('isogeny')


class Group:
    def __init__(self, G, wide=False):
        if G == 'Fp25519':
            self.cv, self.B = ED25, B25
            n = 64
        else:
            self.cv, self.B = TW44, twbase()
            n = 112
        cv, p = self.cv, self.cv.p
        assert cv.on(self.B) and cv.mul(cv.order, self.B) == (0, 1)
        self.p = p
        self.by = {'s': {}, 'x': {}, 'y': {}, 'xy': {}}
        Q = self.B
        for e in range(1 if wide else n):
            R = cv.zero
            for m in range(0, 65 if wide else 17):
                for sg in ((1, -1) if m else (1,)):
                    x, y = (R[0] * sg) % p, R[1]
                    M = sg * m << (4 * e)
                    for k, v in (('s', x + y), ('x', x), ('y', y), ('xy', x * y)):
                        self.by[k].setdefault(v % p, M)
                R = cv.add(R, Q)
            Q = R if False else cv.mul(16, Q)
        self.ks = [1, 2, -1, -2, pow(2, -1, p), cv.d, 2 * cv.d, -cv.d, -2 * cv.d, 4, -4]

    def forms(self, tab):
        """(form, k, multiples, cases not recognised): tab = k * form(M * B)"""
        p = self.p
        best = None
        for form in ('s', 'xy', 'x', 'y'):
            dic = self.by[form]
            z = {'s': 1, 'y': 1}.get(form, 0)
            for k in self.ks:
                ki = pow(k, -1, p)
                M = []
                bad = []
                for c, r in enumerate(tab):
                    v = r * ki % p
                    m = 0 if v == z else dic.get(v)
                    M.append(m)
                    if m is None:
                        bad.append(c)
                hits = sum(1 for m in M if m)
                if hits and 2 * hits >= len(tab) - 2 and (best is None or len(bad) < len(best[3])):
                    best = (form, k % p, M, bad)
                    if not bad:
                        return best
        return best


def canon(M):
    """(sign, M or -M)"""
    i = max(range(len(M)), key=lambda j: (abs(M[j]), -j))
    return (1, tuple(M)) if M[i] > 0 else (-1, tuple(-m for m in M))


# ------------------------------------------------------------------ polynomials over coordinates
def padd(p, a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = (r.get(m, 0) + k * c) % p
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pmul(p, a, b):
    r = {}
    for m, c in a.items():
        for n, k in b.items():
            d = dict(m)
            for v, e in n:
                d[v] = d.get(v, 0) + e
            mm = tuple(sorted(d.items()))
            x = (r.get(mm, 0) + c * k) % p
            if x:
                r[mm] = x
            else:
                r.pop(mm, None)
    return r


def prop(p, a, b):
    """k with a = k b, or None"""
    if not a or not b or len(a) != len(b):
        return None
    m = next(iter(b))
    if m not in a:
        return None
    k = a[m] * pow(b[m], -1, p) % p
    return k if all(a.get(m) == c * k % p for m, c in b.items()) else None


class Points:
    """Reading of an element graph as operations on points."""

    def __init__(self, f, grp, G):
        self.f, self.grp, self.cv, self.p, self.G = f, grp, grp.cv, f.p, G
        self.pts = []           # (curve tag, {case variable: multiples}, constant multiple)
        self.sub = {}           # field variable -> polynomial over coordinates
        self.rw = {}            # monomial -> polynomial
        self.memo = {}
        self.vmemo = {}
        self.tried = set()
        self.mids, self.clos, self.open_ = {}, {}, set()
        self.known = None
        self.zs = {}            # point -> its z when that is a known product
        self.index = {}
        self.invs = {}
        self.sites = {}

    # coordinates: ('x', i), ('y', i), ('z', i)
    def c(self, k, i):
        if k == 'z' and i in self.zs:
            return self.zs[i]
        return {(((k, i), 1),): 1}

    def point(self, tag, M):
        self.pts.append((tag, M))
        return len(self.pts) - 1

    def reduce(self, a):
        """normal form modulo the curve equations"""
        p = self.p
        again = True
        while again:
            again = False
            for m in list(a):
                d = dict(m)
                for (k, i), e in m:
                    if k == 'x' and e >= 2 and d.get(('y', i), 0) >= 2:
                        cv = self.curveof(i)
                        c = a.pop(m)
                        d[k, i] -= 2
                        d['y', i] -= 2
                        rest = {tuple(sorted((v, e) for v, e in d.items() if e)): c * pow(cv.d, -1, p) % p}
                        q = {((('x', i), 2),): cv.a, ((('y', i), 2),): 1, (): p - 1}
                        a = padd(p, a, pmul(p, rest, q))
                        again = True
                        break
                if again:
                    break
        return a

    def curveof(self, i):
        return {'ed25': ED25, 'tw44': TW44, 'ed44': ED44}[self.pts[i][0]]

    # ---- expansion
    def F(self, F):
        r = {}
        for (b, m), c in F.items():
            if b:
                raise Lost('a point operation depends on a condition')
            r = padd(self.p, r, self.mono(m), c)
        return self.reduce(r)

    def var(self, v):
        r = self.vmemo.get(v)
        if r is None:
            if v in self.sub:
                r = self.sub[v]
            else:
                if self.f.defs[v] is None:
                    raise Lost('unknown input %s' % self.f.names[v])
                r = self.F(self.f.defs[v])
            if len(r) > 400:
                raise Lost('no point operation is recognised at %s' % self.f.sites[v])
            self.vmemo[v] = r
        return r

    def mono(self, m):
        if not m:
            return {(): 1}
        if m in self.rw:
            return self.rw[m]
        if len(m) == 1 and m[0][1] == 1:
            return self.var(m[0][0])
        r = self.memo.get(m)
        if r is not None:
            return r
        prs = self.f.pairs.get(m)
        if prs:
            for a, b in prs:
                if a != b and self.recog(a, b) and m in self.rw:
                    return self.rw[m]
            a, b = prs[0]
            r = self.reduce(pmul(self.p, self.mono(a), self.mono(b)))
        else:
            r = {(): 1}
            for v, e in m:
                if e > 8:
                    raise Lost('a quotient within a point operation')
                for _ in range(e):
                    r = pmul(self.p, r, self.var(v))
            r = self.reduce(r)
        if len(r) > 400:
            raise Lost('no point operation is recognised')
        self.memo[m] = r
        return r

    def idx(self, m):
        return self.mids.setdefault(m, len(self.mids))

    def prepare(self):
        """recognise the point operations in the order in which they were made"""
        ms = [m for m in self.f.pairs if self.f.pairs[m]]
        for m in ms:
            self.idx(m)
        for m in ms:
            self.known = (1 << self.idx(m)) - 1
            for a, b in self.f.pairs[m]:
                if m not in self.rw and a != b:
                    try:
                        self.recog(a, b)
                    except Lost:
                        pass
        self.known = None

    def closure(self, m):
        """set of the products a product is made of"""
        r = self.clos.get(m)
        if r is not None:
            return r
        st = [m]
        while st:
            x = st[-1]
            if x in self.clos:
                st.pop()
                continue
            if self.f.pairs.get(x):
                ds = list(self.f.pairs[x][0])
            else:
                ds = [y for v, e in x if v not in self.sub and self.f.defs[v] is not None for b, y in self.f.defs[v]]
                if len(x) > 1 or x and x[0][1] > 1:
                    ds += [((v, 1),) for v, e in x]
            todo = [y for y in ds if y != x and y not in self.clos]
            if todo and x not in self.open_:
                self.open_.add(x)
                st += todo
                continue
            r = 1 << self.idx(x) if self.f.pairs.get(x) else 0
            for y in ds:
                r |= self.clos.get(y, 0)
            self.clos[x] = r
            st.pop()
        return self.clos[m]

    # ---- point operations
    def recog(self, a, b):
        """is the product of a and b a coordinate of a sum, a double or an image of known points?"""
        key = (a, b) if a < b else (b, a)
        if key in self.tried:
            return False
        self.tried.add(key)
        adj = self.f.adj
        paths = []
        me = next((1 << self.idx(m) for m in [self.f.adj.get(a, {}).get(b)] if m is not None), 0)
        for u, v in ((a, b), (b, a)):
            for w in adj.get(v, ()):
                if w == u:
                    continue
                for z in adj.get(w, ()):
                    if z not in (u, v):
                        paths.append((u, v, w, z))       # edge first
                        if u in adj.get(z, ()):
                            paths.append((v, w, z, u))   # edge closing a cycle
                for z in adj.get(u, ()):
                    if z not in (v, w):
                        paths.append((z, u, v, w))       # edge in the middle
        for path in paths:
            # the factors are known before their products
            if any(self.closure(x) & (me if self.known is None else ~self.known) for x in path):
                continue
            for E, F_, G_, H in (path, path[::-1]):
                if self.try_(E, F_, G_, H):
                    return True
        return False

    def coords(self, *ps):
        return sorted({i for q in ps for m in q for (k, i), e in m if k != 'z'})

    def strip(self, q):
        """(z-monomial, rest) when all terms carry the same power of the z's"""
        zs = None
        r = {}
        for m, c in q.items():
            z = tuple((v, e) for v, e in m if v[0] == 'z')
            if zs is not None and z != zs:
                return None, None
            zs = z
            r[tuple((v, e) for v, e in m if v[0] != 'z')] = c
        return zs, r

    def try_(self, E, F_, G_, H):
        es = [self.mono(x) for x in (E, F_, G_, H)]
        ids = self.coords(*es)
        if not 1 <= len(ids) <= 2 or any(not e for e in es):
            return False
        st = [self.strip(e) for e in es]
        if any(z is None or z != st[0][0] for z, _ in st):
            return False
        e, f, g, h = [r for _, r in st]
        for tag, M, (nx, dx, ny, dy) in list(self.targets(ids)) + (self.fixed(ids[0], e, f, g, h) if len(ids) == 1 else []):
            kx = prop(self.p, e, nx)
            if kx is None:
                continue
            kg = prop(self.p, g, dx)
            if kg is None:
                continue
            kh, kf = prop(self.p, h, ny), prop(self.p, f, dy)
            if kh is None or kf is None:
                continue
            self.define(tag, M, (kx, kf, kg, kh), E, F_, G_, H)
            return True
        return False

    def define(self, tag, M, ks, E, F_, G_, H):
        """E F, G H, F G and E H are multiples of x z, y z, z and x y z of a new point, z its own unknown"""
        i = self.point(tag, M)
        f, p = self.f, self.p
        kx, kf, kg, kh = ks
        m = f.adj.get(F_, {}).get(G_)
        if m in self.rw and len(self.rw[m]) == 1:
            # F G was met before (in the sum and in the difference of two points)
            self.zs[i] = {mm: c * pow(kf * kg, -1, p) % p for mm, c in self.rw[m].items()}
        x, y, z = self.c('x', i), self.c('y', i), self.c('z', i)
        for u, v, k, q in ((F_, G_, kf * kg, z), (E, F_, kx * kf, pmul(p, x, z)), (G_, H, kg * kh, pmul(p, y, z)),
                           (E, H, kx * kh, pmul(p, pmul(p, x, y), z))):
            m = f.adj.get(u, {}).get(v)
            if m is not None:
                self.rw[m] = padd(p, {}, q, k)

    def combine(self, A, B, s):
        r = {v: tuple(t) for v, t in A.items()}
        for v, t in B.items():
            r[v] = tuple(x + s * y for x, y in zip(r[v], t)) if v in r else tuple(s * y for y in t)
        return r

    def targets(self, ids):
        p = self.p
        if len(ids) == 1:
            i = ids[0]
            cmb = [(i, i, 1)]
        else:
            i, j = ids
            cmb = [(i, j, 1), (i, j, -1)]
        for i, j, s in cmb:
            tag, M = self.pts[i]
            tag2, M2 = self.pts[j]
            if tag != tag2:
                continue
            cv = self.curveof(i)
            x1, y1, x2, y2 = self.c('x', i), self.c('y', i), self.c('x', j), self.c('y', j)
            if s < 0:
                x2 = padd(p, {}, x2, p - 1)
            yield tag, self.combine(M, M2, s), self.sum(cv, x1, y1, x2, y2)
            if i == j and tag == 'tw44':
                xx, yy = pmul(p, x1, x1), pmul(p, y1, y1)
                yield 'ed44', M, (padd(p, {}, pmul(p, x1, y1), 2), padd(p, xx, yy), padd(p, yy, xx, -1), padd(p, padd(p, {(): 2}, yy, -1), xx))

    def sum(self, cv, x1, y1, x2, y2):
        """numerators and denominators of the coordinates of a sum"""
        p = self.p
        t = pmul(p, pmul(p, x1, x2), pmul(p, y1, y2))
        return tuple(self.reduce(q) for q in (
            padd(p, pmul(p, x1, y2), pmul(p, y1, x2)), padd(p, {(): 1}, t, cv.d),
            padd(p, pmul(p, y1, y2), pmul(p, x1, x2), -cv.a), padd(p, {(): 1}, t, -cv.d)))

    def fixed(self, i, e, f, g, h):
        """the sum of point i and a constant multiple of the base point"""
        p = self.p
        tag, M = self.pts[i]
        if tag not in ('ed25', 'tw44'):
            return []
        cv = self.curveof(i)
        X, Y, XY = ((('x', i), 1),), ((('y', i), 1),), ((('x', i), 1), (('y', i), 1))
        if set(e) != {X, Y} or set(h) != {X, Y} or set(g) != {(), XY} or set(f) != {(), XY}:
            return []
        r = e[Y] * pow(e[X], -1, p) % p
        y = sqrtm(g[XY] * pow(g[()] * cv.d * r, -1, p) % p, p)
        out = []
        for y in (y, -y % p) if y else ():
            x = r * y % p
            m = self.grp.by['y'].get(y)
            if m is None:
                continue
            for m in (m, -m):
                if cv.mul(m, self.grp.B) == (x, y):
                    T = dict(M)
                    T[-1] = (T.get(-1, (0,))[0] + m,)
                    out.append((tag, T, self.sum(cv, self.c('x', i), self.c('y', i), {(): x}, {(): y})))
                    break
        return out

    # ---- quotients
    def quotient(self, m):
        """(numerator, denominator) of a monomial with inverses"""
        p = self.p
        if all(e < 64 for v, e in m):
            return self.mono(m), {(): 1}
        b = self.inverse(m)
        if b is not None:
            n, d = self.quotient(b)
            return d, n
        for a, b in self.f.pairs.get(m, ()):
            try:
                n1, d1 = self.quotient(a)
                n2, d2 = self.quotient(b)
            except Lost:
                continue
            return self.cancel(self.reduce(pmul(p, n1, n2)), self.reduce(pmul(p, d1, d2)))
        raise Lost('a quotient is not recognised')

    def inverse(self, m):
        """monomial b with b^(p-2) = m"""
        P = self.p
        b = []
        for v, e in m:
            # exponents are taken modulo p-1: e = x (p-2) with a small x
            x = -e % (P - 1)
            if x == 0 or x > 64:
                return None
            b.append((v, x))
        b = tuple(b)
        if b in self.rw or len(b) == 1 and b[0][1] == 1 or b in self.f.pairs:
            return b
        return None

    def cancel(self, n, d):
        """drop a common monomial"""
        if not n or not d:
            return n, d
        com = None
        for q in (n, d):
            for m in q:
                dm = dict(m)
                com = dm if com is None else {v: min(e, dm.get(v, 0)) for v, e in com.items()}
        com = {v: e for v, e in com.items() if e and v[0] == 'z'}
        if not com:
            return n, d
        cut = lambda q: {tuple((v, e - com.get(v, 0)) for v, e in m if e - com.get(v, 0)): c for m, c in q.items()}
        return cut(n), cut(d)


# ------------------------------------------------------------------ scalar relations
def total(d, M):
    """sum of the multiples as a polynomial over the scalar bits, or (None, case variable)"""
    tabs = {v: list(t) for v, t in M.items()}
    res = pconst(tabs.pop(-1, (0,))[0])
    for v in range(len(d.vars) - 1, -1, -1):
        t = tabs.pop(v, None)
        if t is None:
            continue
        x = d.vars[v]
        al = t[1] - t[0]
        if any(t[i + 1] - t[i] != al for i in range(len(t) - 1)):
            return None, v
        be = t[0] - al * x.lo
        res = res.add(pconst(be))
        for m, c in x.p.d.items():
            c *= al
            u = d.tabs.get(m[0]) if len(m) == 1 else None
            if u is not None:
                if u[0] >= v:
                    return None, v
                w = tabs.setdefault(u[0], [0] * len(u[1]))
                for i, y in enumerate(u[1]):
                    w[i] += c * y
            elif any(a in d.tabs for a in m):
                return None, v
            else:
                res = res.add(Poly({m: c}))
    return res, None


def congruent(p, q, L):
    return all(c % L == 0 for c in p.add(q, -1).d.values())


# ------------------------------------------------------------------ interpretation
class Run:
    def __init__(self, cfg, G, bits, keep=None):
        self.cfg, self.G = cfg, G
        self.m = build.module(cfg)
        self.d = TDom(polymode=True, maxterms=20000)
        self.e = TEngine(self.m, self.d, max_undecided=1)
        self.sem = GSem(cfg, self.e, (G,))
        self.mem = Mem()
        self.words = {}        # tuple of atoms -> integer polynomial
        self.undecided = []
        self.red = None        # (scalar bits, polynomial modulo the order it is congruent to)
        if G == 'Fp448':
            self.e.callhook['word64_multiplier'] = self.multiplier
            self.e.callhook['modular_reduction_ed448'] = self.reduction

    def buf(self, name, n):
        self.mem.add(Obj(name, n, 'param', 'undef'))
        return Ptr({name: C(0)})

    def key(self, name, n, top=None):
        """unknown bytes given as bits; top: number of bits that can be set"""
        p, bits = bitparam(self.sem, self.mem, name, n, False)
        if top is not None:
            ob = self.mem.objs[name]
            for i in range(n):
                q = {(bits[8 * i + j],): 1 << j for j in range(8) if 8 * i + j < top}
                ob.cells[i] = (1, V(0, sum(q.values()), Poly(q), sum(q.values())) if q else C(0))
            bits = bits[:top]
        return p, bits

    # scalar arithmetic modulo the group order (P21)
    def word(self, mem, p, i):
        o, off = p.one()
        if o is None or not off.isc():
            raise Lost('scalar at an unknown address')
        v = self.e.rd(self.e.getobj(mem, o), off.lo + 8 * i, 8)
        return self.d.nu(v, 64)

    def integer(self, mem, p, n):
        ws = [self.word(mem, p, i) for i in range(n)]
        if any(w.u or w.p is None for w in ws):
            raise Lost('a scalar word of unknown contents')
        at = tuple(next(iter(w.p.d))[0] if len(w.p.d) == 1 and next(iter(w.p.d)) else None for w in ws)
        for k, q in self.words.items():
            if at[:len(k)] == k and all(w.isc() and w.lo == 0 for w in ws[len(k):]):
                return q
        r = pconst(0)
        for i, w in enumerate(ws):
            r = r.add(w.p.scale(1 << (64 * i)))
        return r

    def multiplier(self, e, mem, a, ins):
        ptr, num = [], {}
        for x in a:
            if isinstance(x, Ptr):
                ptr.append(x)
            else:
                num[len(ptr) - 1] = self.d.nu(x, 32)
        if len(ptr) != 3 or 1 not in num or 2 not in num or not all(v.isc() for v in num.values()):
            raise Lost('multiplication of unknown size')
        na, nb = num[1].lo, num[2].lo
        nc = num[0].lo if 0 in num else na + nb
        c = self.integer(mem, ptr[0], nc)
        if not c.isconst() or c.const():
            raise Lost('accumulating multiplication')
        q = self.integer(mem, ptr[1], na).mul(self.integer(mem, ptr[2], nb))
        o, off = ptr[0].one()
        ob = mem.w(o)
        at = []
        for i in range(min(nc, na + nb)):
            v = self.d.fresh(0, (1 << 64) - 1, 'prod')
            at.append(next(iter(v.p.d))[0])
            e.wr(ob, off.lo + 8 * i, 8, v)
        self.words[tuple(at)] = q
        return C(0)

    def reduction(self, e, mem, a, ins):
        q = self.integer(mem, a[0], 14)
        bits = [self.d.atom(0, 1, 's%d' % i) for i in range(446)]
        self.red = (bits, q)
        o, off = a[0].one()
        ob = mem.w(o)
        for i in range(7):
            p = {(bits[64 * i + j],): 1 << j for j in range(64) if 64 * i + j < 446}
            e.wr(ob, off.lo + 8 * i, 8, V(0, sum(p.values()), Poly(p), sum(p.values())))
        for i in range(56, 114):
            e.wr(ob, off.lo + i, 1, C(0))
        return C(0)


def tables(run, pts, grp, ob):
    """every operand taken from memory by a digit is a multiple of the base point"""
    d, f = run.d, pts.f
    reg = {}
    late = []
    ok = True
    tag = 'ed25' if run.G == 'Fp25519' else 'tw44'

    def place(v, form, k, M, x):
        s, Mc = canon(M)
        i = reg.get((v, Mc))
        if i is None:
            i = reg[v, Mc] = pts.point(tag, {v: Mc})
        X, Y = pts.c('x', i), pts.c('y', i)
        q = {'s': padd(f.p, Y, X, s), 'x': padd(f.p, {}, X, s), 'xy': padd(f.p, {}, pmul(f.p, X, Y), s), 'y': Y}[form]
        pts.sub[x] = padd(f.p, {}, q, k)
    for x, (v, tab) in run.sem.tabvars[run.G].items():
        r = grp.forms(tab)
        if r is None:
            raise Lost('an operand selected by a digit is not a table of multiples of the base point (%s)' % f.sites[x])
        form, k, M, bad = r
        ob('table operand %d' % x, not bad, 'the table entry for digit value %s (%s of the operands selected by digit %d) is not the expected multiple of the base point' % (
            ', '.join(str(run.d.vars[v].lo + c) for c in bad[:3]), {'s': 'y+x or y-x', 'x': 'x', 'y': 'y', 'xy': 'the product of the coordinates'}[form], v), f.sites[x])
        if bad:
            ok = False
        elif form == 'y':
            late.append((x, v, k, M))
        else:
            place(v, form, k, M, x)
    for x, v, k, M in late:
        A = [abs(m) for m in M]
        for (v2, Mc), i in list(reg.items()):
            if v2 == v and [abs(m) for m in Mc] == A:
                M = Mc
                break
        place(v, 'y', k, M, x)
    return ok


class Env(dict):
    """values of all atoms for given scalar bits, by their definitions"""
    def __init__(self, d, bits):
        dict.__init__(self, bits)
        self.d, self.cases = d, {}

    def value(self, p):
        r = 0
        for m, c in p.d.items():
            for a in m:
                c *= self[a]
                if not c:
                    break
            r += c
        return r

    def case(self, v):
        c = self.cases.get(v)
        if c is None:
            x = self.d.vars[v]
            c = self.cases[v] = self.value(x.p)
            if not x.lo <= c <= x.hi:
                raise Lost('a digit out of its range')
        return c - self.d.vars[v].lo

    def __missing__(self, a):
        d = self.d
        A = d.atoms[a]
        if a in d.tabs:
            v, t = d.tabs[a]
            r = t[self.case(v)]
        elif a in d.cond:
            o, x, y = d.cond[a]
            x, y = self.value(x), self.value(y)
            r = int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[o])
        elif d.alias and a in d.alias:
            r = self.value(d.alias[a])
        elif A.E is not None:
            r = self.value(A.E if isinstance(A.E, Poly) else Poly(A.E)) >> A.k
        else:
            raise Lost('a value of unknown origin (%s)' % A.name)
        self[a] = r
        return r


def evaluate(run, F, atoms):
    """the value of F for given scalar bits"""
    f = run.sem.F[run.G]
    env = {}
    for x, (v, tab) in run.sem.tabvars[run.G].items():
        env[x] = tab[atoms.case(v)]
    return f.evaluate(F, env, atoms)


def boundary(run, bits, n, rnd):
    """integers at which a comparison made by the code changes its outcome"""
    d = run.d
    pos = {a: i for i, a in enumerate(bits)}
    out = []
    qs = [x.add(y, -1) for o, x, y in d.cond.values()] + [A.E if isinstance(A.E, Poly) else Poly(A.E) for A in d.atoms if A.E is not None and A.name == 'lt']
    for q in qs[:60]:
        c = q.const()
        lin = {m[0]: k for m, k in q.d.items() if len(m) == 1}
        if len(lin) + (c != 0) != len(q.d) or any(a not in pos for a in lin):
            continue
        if all(k < 0 for k in lin.values()):
            c, lin = -c, {a: -k for a, k in lin.items()}
        if not lin or any(k <= 0 for k in lin.values()):
            continue
        for delta in (0, -1, 1):
            t = delta - c
            s = {}
            for a, k in sorted(lin.items(), key=lambda z: -z[1]):
                s[a] = int(t >= k)
                t -= k * s[a]
            if t:
                continue
            low = min(pos[a] for a in lin)
            for z in range(6):
                v = rnd.getrandbits(n)
                if z == 0:
                    v |= (1 << low) - 1
                elif z == 1:
                    v = v >> low << low
                for a, b in s.items():
                    v = (v & ~(1 << pos[a])) | b << pos[a]
                out.append(v)
    return out[:400]


JOBS = ('X25519.keygen', 'X25519_x64.keygen', 'X448.keygen', 'Ed25519.point', 'Ed448.point')


def jobs(which):
    import build
    return [(c, 'group', j) for j in which for c in build.CONFIGS]


class Result:
    def __init__(self, run):
        self.used, self.calls, self.e = run.sem.used, run.sem.calls, run.e
        self.undecided = run.undecided


def decide(cfg, g, ob):
    G = 'Fp448' if '448' in g else 'Fp25519'
    nb = 56 if G == 'Fp448' else 32
    run = Run(cfg, G, None)
    d, sem, m = run.d, run.sem, run.m
    f = sem.F[G]
    if g.endswith('.keygen'):
        fn = api.tables(m)[g.split('.')[0]].get('keygen')
        if fn is None:
            raise Lost('%s is not there' % g)
        pk, bits = run.key('private key', nb)
        out = run.buf('public key', nb)
        ret, mem = run.e.call(fn, [out, pk], run.mem)
        if G == 'Fp25519':
            want = Poly({(bits[i],): 1 << i for i in range(3, 254)}).add(pconst(1 << 254))
        else:
            want = Poly({(bits[i],): 1 << i for i in range(2, 447)}).add(pconst(1 << 447))
        outname = 'public key'
    else:
        if G == 'Fp25519':
            mul, enc = 'point_multiplication_ed25519', 'point_encoding_ed25519'
            pk, bits = run.key('scalar', 32, 253)
        else:
            mul, enc = 'fixed_point_multiplication_ed448', 'point_encoding_ed448'
            pk, bits = run.key('scalar', 57, 448)
        fn = mul
        for x in (mul, enc):
            if x not in m.funcs or m.funcs[x].decl:
                raise Lost('%s is not there' % x)
        want = Poly({(b,): 1 << i for i, b in enumerate(bits)})
        nb = 32 if G == 'Fp25519' else 57
        q = run.buf('point', 8192)
        out = run.buf('encoding', nb)
        ret, mem = run.e.call(mul, [q, pk], run.mem)
        ret, mem = run.e.call(enc, [out, q], mem)
        outname = 'encoding'
    for x in list(run.e.events.values())[:3]:
        ob('fault', False, repr(x), fn)
    outs = output(run, mem, outname, g, ob, fn)
    if outs is None:
        return Result(run)
    why, where = '', fn
    try:
        grp = Group(G)
        pts = Points(f, grp, G)
        if not tables(run, pts, grp, ob):
            return Result(run)
        why = meaning(run, pts, g, outs, want, ob)
    except Lost as ex:
        why = str(ex)
    if why:
        witness(run, g, outs, bits, want, why, ob, fn)
    return Result(run)


def output(run, mem, name, g, ob, fn):
    """field values the result bytes encode"""
    sem, G, d, e = run.sem, run.G, run.d, run.e
    if g.endswith('.keygen'):
        u = sem.canonical(mem, name, 0, G)
        ob('result is canonical', u is not None, 'the public key is not shown to be the canonical bytes of one field element', fn)
        return None if u is None else [u]
    o = mem.objs[name]
    n = 4 if G == 'Fp25519' else 7
    ws = [d.nu(e.rd(o, 8 * i, 8), 64) for i in range(n)]
    # y: canonical words; x: parity in the top bit
    ys = set()
    for i, w in enumerate(ws):
        for mn in w.p.d if w.p is not None else ():
            for a in mn:
                if a in sem.limb and sem.limb[a][0] in sem.canon and sem.limb[a][1] == i and i < n - 1:
                    ys.add(sem.limb[a][0])
    if len(ys) != 1:
        ob('encoding', False, 'the first bytes are not the canonical bytes of one element', fn)
        return None
    ky = ys.pop()
    aty = {sem.limb[a][1]: a for a in sem.limb if sem.limb[a][0] == ky}
    last = ws[n - 1] if G == 'Fp25519' else d.nu(e.rd(o, 56, 1), 8)
    kx = None
    for mn in last.p.d:
        for a in mn:
            A = d.atoms[a]
            for b in ([a] if A.E is None else [y for q in A.E.d for y in q]):
                if b in sem.limb and sem.limb[b][0] in sem.canon and sem.limb[b][0] != ky and sem.limb[b][1] == 0:
                    kx = b
    ok = kx is not None
    if ok:
        par = d.bits(V(0, (1 << 64) - 1, Poly({(kx,): 1})), 0, 1, 64)
        if G == 'Fp25519':
            exp = Poly({(aty[3],): 1}).add(par.p.scale(1 << 63))
            ok = last.p == exp and all(ws[i].p == Poly({(aty[i],): 1}) for i in range(3))
        else:
            ok = last.p == par.p.scale(128) and all(ws[i].p == Poly({(aty[i],): 1}) for i in range(7))
    ob('encoding', ok, 'the encoding is not the canonical y with the parity of x as its top bit', fn)
    return [sem.sets[sem.limb[kx][0]][2], sem.sets[ky][2]] if ok else None


def meaning(run, pts, g, outs, want, ob):
    """'' when the outputs are the specified functions of the right multiple"""
    f, p, d = pts.f, pts.p, run.d
    qs = []
    for F in outs:
        if len(F) != 1:
            return 'the result is not a quotient of coordinates'
        ((b, mo), c), = F.items()
        if b:
            return 'the result depends on a condition'
        n, de = pts.quotient(mo)
        qs.append((padd(p, {}, n, c), de))
    ids = pts.coords(*[q for pr in qs for q in pr])
    if len(ids) != 1:
        return 'the result is not a function of one point'
    i = ids[0]
    x, y = pts.c('x', i), pts.c('y', i)
    one = {(): 1}
    if g.endswith('.keygen'):
        exp = [(padd(p, one, y), padd(p, one, y, -1))] if run.G == 'Fp25519' else [(pmul(p, y, y), pmul(p, x, x))]
    else:
        exp = [(x, one), (y, one)]
    sign = 1
    for k, ((n, de), (en, ed)) in enumerate(zip(qs, exp)):
        a, b = prop(p, n, en), prop(p, de, ed)
        if k == 0 and len(exp) == 2 and a is not None and b is not None and (a + b) % p == 0:
            sign = -1
        elif a is None or a != b:
            return 'the result is not %s of a multiple of the base point' % (('x', 'y')[k] if len(exp) == 2 else 'the u-coordinate')
    tag, M = pts.pts[i]
    M = {v: tuple(sign * c for c in t) for v, t in M.items()}
    ob('points', True)
    ob('curve', tag == ('ed25' if run.G == 'Fp25519' else 'ed44'), 'the result is a point of another curve')
    if tag not in ('ed25', 'ed44'):
        return ''
    t, v = total(d, M)
    if t is None:
        return 'digit %d does not enter linearly' % v
    L = L25 if run.G == 'Fp25519' else L44
    signs = (1, -1) if g.endswith('.keygen') else (1,)      # u is the same for a point and its negative
    if run.G == 'Fp448':
        if run.red is None:
            return 'the scalar is not divided by four modulo the order'
        bits, q = run.red
        s = Poly({(b,): 1 << i for i, b in enumerate(bits)})
        if not any(congruent(t, s.scale(k), L) for k in signs):
            return 'the digits do not add up to the scalar'
        if not congruent(q.scale(4), want, L):
            return 'the scalar is not the specified one'
    elif not any(congruent(t, want.scale(k), L) for k in signs):
        return 'the digits do not add up to the scalar'
    ob('scalar', True)
    return ''


def witness(run, g, outs, bits, want, why, ob, fn):
    """the argument fails: exhibit a scalar for which the result differs"""
    import random
    rnd = random.Random(25519)
    d, f = run.d, run.sem.F[run.G]
    p = f.p
    n = len(bits)
    M = (1 << n) - 1
    L = L25 if run.G == 'Fp25519' else L44
    ks = [0, M, 1, int('7' * (n // 4), 16), int('8' * (n // 4), 16)] + [rnd.getrandbits(n) for i in range(55)]
    if run.G == 'Fp448' and run.red is None:
        raise Lost(why)
    sb = run.red[0] if run.red is not None else bits
    for s in boundary(run, sb, len(sb), rnd):
        if run.red is None:
            ks.append(s)
            continue
        # the operand that is reduced to it
        for j in range(8):
            k = 4 * s % L + j * L
            if g.endswith('.point') and k <= M or k % 4 == 0 and k >> 447 == 1:
                ks.append(k)
                break
    for k in ks:
        k &= M
        atoms = Env(d, {a: (k >> i) & 1 for i, a in enumerate(bits)})
        kk = atoms.value(want)
        if run.red is not None:
            s = atoms.value(run.red[1]) % L
            atoms.update({a: (s >> i) & 1 for i, a in enumerate(run.red[0])})
        got = [evaluate(run, F, atoms) for F in outs]
        Q = ED25.mul(kk, B25) if run.G == 'Fp25519' else ED44.mul(kk, B44)
        x, y = Q
        if g.endswith('.keygen'):
            exp = [(1 + y) * pow(1 - y, p - 2, p) % p if run.G == 'Fp25519' else pow(y * pow(x, p - 2, p), 2, p)]
        else:
            exp = list(Q)
        if got != exp:
            ob('result', False, '%s; for the scalar 0x%x the result is not that of the specification' % (why, k), fn)
            return
    run.undecided.append(('result', '%s, although none of %d scalars (boundary values of the comparisons made included) contradicts' % (why, len(ks))))


if __name__ == '__main__':
    t = time.time()
    cnt = [0, 0]

    def ob(i, ok, dd='', w=''):
        cnt[not ok] += 1
        if not ok:
            print('FAIL', i, dd, w)
    r = decide(sys.argv[2] if len(sys.argv) > 2 else 'adx', sys.argv[1], ob)
    print(sys.argv[1], cnt, time.time() - t)
