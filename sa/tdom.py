"""Tabulated values.

A quantity with few possible values (a recoded digit, with the carry into it) becomes a case
variable; every value that is a function of one case variable is kept as the tuple of its exact
values, one per case.  Comparisons, masks, selections and shifts of such values are computed case by
case, so a masked table look-up yields the table entry of every case.

A tabulated value is an ordinary value whose polynomial mentions atoms registered in `tabs`.  The
defining polynomial of a case variable is kept exactly, and linear facts between digits stay linear.
"""
from dom import Dom, V, Ptr, Vec, C, Poly, pconst
from interp import Engine

SMALL = 40


class Var:
    __slots__ = ('i', 'lo', 'hi', 'p', 'lead')

    def __init__(self, i, lo, hi, p):
        self.i, self.lo, self.hi, self.p = i, lo, hi, p

    def cases(self):
        return range(self.lo, self.hi + 1)


class TDom(Dom):
    def __init__(self, **kw):
        Dom.__init__(self, **kw)
        self.tabs = {}          # atom -> (var index, tuple)
        self.tabatom = {}       # (var index, tuple) -> atom
        self.vars = []
        self.bylead = {}        # monomial -> variables whose definition contains it
        self.fmemo = {}
        self.cond = {}
        self.alias = {}

    # ---- functions of one case variable
    def fnp(self, p):
        """(var index or None, tuple of values) of a polynomial, or None"""
        r = self.fmemo.get(p, 0)
        if r == 0:
            r = self._fnp(p)
            if r is not None:
                self.fmemo[p] = r
        return r

    def _fnp(self, p):
        var = None
        rest = None
        for m in p.d:
            for a in m:
                x = self.tabs.get(a)
                if x is None:
                    rest = m
                    break
            if rest is not None:
                break
        if rest is not None:
            for v in reversed(self.bylead.get(rest, ())):
                V_ = self.vars[v]
                lam, z = divmod(p.d[rest], V_.p.d[rest])
                if z:
                    continue
                q = p.add(V_.p, -lam)
                r = self.tabsonly(q, v)
                if r is not None:
                    return v, tuple(lam * c + x for c, x in zip(V_.cases(), r))
            return None
        # an exact multiple of a definition may mention tabulated carries only
        for m in p.d:
            for a in m:
                v = self.tabs[a][0]
                if var is not None and v != var:
                    var = -1
                elif var is None:
                    var = v
        if var == -1:
            for m in p.d:
                for v in self.bylead.get(m, ()):
                    V_ = self.vars[v]
                    lam, z = divmod(p.d[m], V_.p.d[m])
                    if z:
                        continue
                    r = self.tabsonly(p.add(V_.p, -lam), v)
                    if r is not None:
                        return v, tuple(lam * c + x for c, x in zip(V_.cases(), r))
            return None
        if var is None:
            return None, p.const()
        r = self.tabsonly(p, var)
        return None if r is None else (var, r)

    def tabsonly(self, p, v):
        n = len(self.vars[v].cases())
        out = [p.const()] * n
        for m, c in p.d.items():
            if not m:
                continue
            t = None
            for a in m:
                x = self.tabs.get(a)
                if x is None or x[0] != v:
                    return None
                t = x[1] if t is None else tuple(i * j for i, j in zip(t, x[1]))
            for i in range(n):
                out[i] += c * t[i]
        return tuple(out)

    def fn(self, v):
        if not isinstance(v, V) or v.u:
            return None
        if v.lo == v.hi:
            return None, v.lo
        if v.p is None:
            return None
        return self.fnp(v.p)

    def tv(self, var, tab, t=0):
        lo, hi = min(tab), max(tab)
        if lo == hi:
            return self.tag(C(lo), t, False)
        a = self.tabatom.get((var, tab))
        if a is None:
            a = self.tabatom[var, tab] = self.atom(lo, hi, 'case%d' % var)
            self.tabs[a] = (var, tab)
        may = None
        if lo >= 0:
            may = 0
            for x in tab:
                may |= x
        return V(lo, hi, Poly({(a,): 1}), may, t, False)

    def pw(self, f, *vs):
        """f applied case by case, or None"""
        fs = []
        var = None
        for v in vs:
            x = self.fn(v)
            if x is None:
                return None
            if x[0] is not None:
                if var is not None and x[0] != var:
                    return None
                var = x[0]
            fs.append(x)
        if var is None:
            return None
        n = len(self.vars[var].cases())
        cols = [x[1] if x[0] is not None else (x[1],) * n for x in fs]
        t = 0
        for v in vs:
            t |= v.t
        return self.tv(var, tuple(f(*r) for r in zip(*cols)), t)

    def create(self, v):
        """make the value a case variable"""
        if not isinstance(v, V) or v.u or v.p is None or v.p.isconst() or v.hi - v.lo > SMALL or v.hi - v.lo < 2:
            return False
        if self.fnp(v.p) is not None:
            return True
        lo, hi = v.lo, v.hi
        l, h = self.prange(v.p.d)
        lo, hi = max(lo, l), min(hi, h)
        x = Var(len(self.vars), lo, hi, v.p)
        self.vars.append(x)
        for m in v.p.d:
            if m:
                self.bylead.setdefault(m, []).append(x.i)
        self.fmemo = {k: r for k, r in self.fmemo.items() if r is not None}
        return True

    def exact(self, r, *vs):
        """the result is expressed with the unknowns of the operands"""
        if r.p is None:
            return False
        at = {a for v in vs if v.p is not None for m in v.p.d for a in m}
        return all(a in at for m in r.p.d for a in m) and all(len(m) < 2 for m in r.p.d)

    # ---- overridden operations
    def nu(self, v, w):
        if v.lo >= 0 and v.hi < 1 << w:
            return v
        M = (1 << w) - 1
        r = self.pw(lambda x: x & M, v)
        return r if r is not None else Dom.nu(self, v, w)

    def ns(self, v, w):
        h = 1 << (w - 1)
        if v.lo >= -h and v.hi < h:
            return v
        r = self.pw(lambda x: ((x + h) & (2 * h - 1)) - h, v)
        return r if r is not None else Dom.ns(self, v, w)

    def small(self, *vs):
        """make the operands case variables when that is cheap"""
        ok = False
        for v in vs:
            if self.fn(v) is None and v.p is not None and not v.u and any(a in self.tabs for m in v.p.d for a in m):
                ok |= self.create(v)
        return ok

    def lshr(self, a, k, w):
        if a.isc() or not k:
            return Dom.lshr(self, a, k, w)
        M = (1 << w) - 1
        f = lambda x: (x & M) >> k
        r = self.pw(f, a)
        if r is not None:
            return r
        r = Dom.lshr(self, a, k, w)
        if not r.isc() and not self.exact(r, a) and self.create(self.clamp(self.nu(a, w))):
            r2 = self.pw(f, a)
            if r2 is not None:
                return r2
        return r

    def ashr(self, a, k, w):
        if a.isc() or not k:
            return Dom.ashr(self, a, k, w)
        h = 1 << (w - 1)
        k = min(k, w - 1)
        f = lambda x: (((x + h) & (2 * h - 1)) - h) >> k
        r = self.pw(f, a)
        if r is not None:
            return r
        r = Dom.ashr(self, a, k, w)
        if not r.isc() and not self.exact(r, a) and self.create(self.clamp(self.ns(a, w))):
            r2 = self.pw(f, a)
            if r2 is not None:
                return r2
        return r

    def bits(self, a, s, t, w):
        if a.isc():
            return Dom.bits(self, a, s, t, w)
        M, N = (1 << w) - 1, (1 << (t - s)) - 1
        f = lambda x: ((x & M) >> s) & N
        r = self.pw(f, a)
        if r is not None:
            return r
        r = Dom.bits(self, a, s, t, w)
        if not r.isc() and not self.exact(r, a) and self.create(self.clamp(self.nu(a, w))):
            r2 = self.pw(f, a)
            if r2 is not None:
                return r2
        return r

    def two(self, name, f, a, b, w):
        if a.isc() and b.isc():
            return getattr(Dom, name)(self, a, b, w)
        M = (1 << w) - 1
        g = lambda x, y: f(x & M, y & M) & M
        r = self.pw(g, a, b)
        if r is None and not a.isc() and not b.isc() and self.small(a, b):
            r = self.pw(g, a, b)
        return r if r is not None else getattr(Dom, name)(self, a, b, w)

    def band(self, a, b, w):
        return self.two('band', lambda x, y: x & y, a, b, w)

    def bor(self, a, b, w):
        return self.two('bor', lambda x, y: x | y, a, b, w)

    def bxor(self, a, b, w):
        return self.two('bxor', lambda x, y: x ^ y, a, b, w)

    def mul(self, a, b):
        if not a.isc() and not b.isc():
            r = self.pw(lambda x, y: x * y, a, b)
            if r is not None:
                return r
        return Dom.mul(self, a, b)


    # ---- merges under a known condition
    gate = None

    def join(self, a, b, *r):
        g = self.gate
        if g is not None and a is not b:
            c, k = g
            x, y = (a, b) if k else (b, a)
            if isinstance(x, V) and isinstance(y, V) and not x.u and not y.u:
                v = self.pw(lambda q, u, w: u if q & 1 else w, c, x, y)
                if v is not None:
                    return v
                if c.p is not None and x.p is not None and y.p is not None and len(c.p.d) * (len(x.p.d) + len(y.p.d)) < 2000:
                    return V(min(x.lo, y.lo), max(x.hi, y.hi), y.p.add(c.p.mul(x.p.add(y.p, -1))), None, x.t | y.t | c.t, False)
        return Dom.join(self, a, b, *r)


class TEngine(Engine):
    gating = True

    def gated(self, a, b):
        """the states about to be merged are told apart by a condition"""
        self.dom.gate = None
        for (c, k), (c2, k2) in zip(a, b):
            if c is c2 and k == k2:
                continue
            if c is c2 and isinstance(c, V) and not c.u:
                self.dom.gate = (c, k)
            return

    def cmp(self, pred, a, b, w):
        if isinstance(a, V) and isinstance(b, V) and not (a.isc() and b.isc()):
            d = self.dom
            h = 1 << (w - 1)
            if pred[0] == 's':
                rd = lambda x: ((x + h) & (2 * h - 1)) - h
            else:
                rd = lambda x: x & (2 * h - 1)
            o = pred if pred in ('eq', 'ne') else pred[1:]
            op = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y}[o]
            f = lambda x, y: int(op(rd(x), rd(y)))
            r = d.pw(f, a, b)
            if r is not None:
                return r
            for x, y in ((a, b), (b, a)):
                if y.isc() and d.create(d.clamp((d.ns if pred[0] == 's' else d.nu)(x, w))):
                    r = d.pw(f, a, b)
                    if r is not None:
                        return r
            n = len(d.atoms)
            r = Engine.cmp(self, pred, a, b, w)
            nm = d.ns if pred[0] == 's' else d.nu
            self.define(r, n, o, nm(a, w), nm(b, w))
            return r
        return Engine.cmp(self, pred, a, b, w)

    def define(self, r, n, o, x, y):
        """keep what a new atom stands for"""
        d = self.dom
        if isinstance(r, V) and not r.u and r.p is not None and len(r.p.d) <= 2 and x.p is not None and y.p is not None and not x.u and not y.u:
            for m, c in r.p.d.items():
                if len(m) == 1 and m[0] >= n and d.atoms[m[0]].E is None and m[0] not in d.cond and m[0] not in d.tabs:
                    if c == -1:
                        o = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[o]
                    d.cond[m[0]] = (o, x.p, y.p)

    def iszero(self, x, w):
        if isinstance(x, V) and not x.isc():
            d = self.dom
            M = (1 << w) - 1
            r = d.pw(lambda y: int(y & M == 0), x)
            if r is not None:
                return r
            n = len(d.atoms)
            r = Engine.iszero(self, x, w)
            y = d.nu(x, w)
            self.define(r, n, 'eq', y, C(0))
            return r
        return Engine.iszero(self, x, w)

    def select(self, c, x, y, w):
        if isinstance(c, V) and not c.isc() and isinstance(x, V) and isinstance(y, V):
            r = self.dom.pw(lambda b, u, v: u if b & 1 else v, c, x, y)
            if r is not None:
                return r
        return Engine.select(self, c, x, y, w)
