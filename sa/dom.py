"""Abstract values.

An integer value V stands for the set of integers n it may represent; the machine word is n mod 2^w
(w comes from the operation).  V carries
  lo, hi : an interval containing n
  p      : an integer polynomial over atoms, equal to n exactly (or None: no relation known)
  may    : mask of bits that can be set, valid only when 0 <= lo (unsigned reading), or None
  t      : taint labels (bit set)
  u      : True when (some of) the value may be uninitialised
Atoms are integer unknowns with an interval; floor atoms floor(P / 2^k) also remember P and k, so
linear facts about carries, borrows, high halves and bit slices are kept exactly.
"""


class Poly:
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = d
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.d == o.d)

    def isconst(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0)

    def add(self, o, k=1):
        if len(o.d) > len(self.d) and k == 1:
            a, b = o.d, self.d
        else:
            a, b = self.d, o.d
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.d.items()})

    def mul(self, o):
        r = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                if not m:
                    x = n
                elif not n:
                    x = m
                elif len(m) == 1 and len(n) == 1:
                    x = m + n if m[0] <= n[0] else n + m
                else:
                    x = tuple(sorted(m + n))
                v = r.get(x, 0) + c * e
                if v:
                    r[x] = v
                else:
                    del r[x]
        return Poly(r)


ZERO = Poly({})


def pconst(n):
    return Poly({(): n}) if n else ZERO


class Atom:
    __slots__ = ('lo', 'hi', 'name', 'E', 'k', 'xor', 'ors')

    def __init__(self, lo, hi, name, E=None, k=None):
        self.lo, self.hi, self.name, self.E, self.k = lo, hi, name, E, k
        self.xor = None
        self.ors = None


class V:
    __slots__ = ('lo', 'hi', 'p', 'may', 't', 'u')

    def __init__(self, lo, hi, p=None, may=None, t=0, u=False):
        self.lo, self.hi, self.p, self.may, self.t, self.u = lo, hi, p, may, t, u

    def isc(self):
        return self.lo == self.hi

    def __repr__(self):
        return 'V[%s%s%s%s]' % (self.lo if self.lo == self.hi else '%d..%d' % (self.lo, self.hi), ' poly' if self.p is not None and not self.p.isconst() else '', ' T%d' % self.t if self.t else '', ' U' if self.u else '')


class Ptr:
    """A pointer: possible bases -> byte offset V; t taints the address itself."""
    __slots__ = ('b', 't', 'u')

    def __init__(self, b, t=0, u=False):
        self.b, self.t, self.u = b, t, u

    def one(self):
        if len(self.b) == 1:
            for o, v in self.b.items():
                return o, v
        return None, None

    def __repr__(self):
        return 'Ptr%r' % (self.b,)


class Vec:
    __slots__ = ('ew', 'e')

    def __init__(self, ew, e):
        self.ew, self.e = ew, e


def affine(ya, xa, dx, dy, n):
    """ya + lam*(n - xa) when dy = lam*dx for a constant lam and the result is integral."""
    from fractions import Fraction
    m0 = next(iter(dx.d))
    if not dy.d:
        return None
    if m0 not in dy.d or len(dx.d) != len(dy.d):
        return None
    lam = Fraction(dy.d[m0], dx.d[m0])
    for m, c in dx.d.items():
        if dy.d.get(m, 0) != lam * c:
            return None
    e = n.add(xa, -1)
    out = {}
    for m, c in e.d.items():
        z = lam * c
        if z.denominator != 1:
            return None
        out[m] = int(z)
    return ya.add(Poly(out))


_cc = {}


def C(n):
    v = _cc.get(n)
    if v is None:
        v = V(n, n, pconst(n), n if n >= 0 else None)
        if len(_cc) < 100000:
            _cc[n] = v
    return v


class Dom:
    """Operations; polymode switches the polynomial component on."""

    def __init__(self, polymode=True, maxterms=4000, rel=False):
        self.pm = polymode
        self.rel = rel and not polymode    # linear relations between lengths and offsets only
        self.facts = ()                    # polys known to be <= 0 on the current path
        self.jl = None
        self.alias = None                  # atom -> value it stands for (refined by a branch)
        self.atoms = []
        self.floors = {}
        self.maxterms = maxterms
        self.ubcache = {}
        self.notes = []
        self.deepbound = True
        self.xors = {}
        self.orsets = {}
        self.flats = {}
        self.bitnames = {}
        self.bitdefs = {}

    # ---- atoms
    def atom(self, lo, hi, name='?', E=None, k=None):
        self.atoms.append(Atom(lo, hi, name, E, k))
        return len(self.atoms) - 1

    def fresh(self, lo, hi, name='?', t=0, u=False):
        if lo == hi:
            c = C(lo)
            return c if not t and not u else V(lo, lo, c.p, c.may, t, u)
        if self.pm:
            return V(lo, hi, Poly({(self.atom(lo, hi, name),): 1}), None, t, u)
        return V(lo, hi, None, None, t, u)

    def relatom(self, lo, hi, name='?', step=1, t=0, u=False):
        """An unknown multiple of step that relations may mention."""
        if lo == hi:
            return self.tag(C(lo), t, u)
        l, h = -(-lo // step), hi // step
        may = ((1 << hi.bit_length()) - 1) & ~(step - 1) if lo >= 0 else None
        return V(l * step, h * step, Poly({(self.atom(l, h, name),): step}), may, t, u)

    def nfact(self, q):
        """q <= 0 with the common factor taken out."""
        import math
        g = 0
        for m, c in q.d.items():
            if m:
                g = math.gcd(g, c)
        if g > 1:
            c0 = q.d.get((), 0)
            d = {m: c // g for m, c in q.d.items() if m}
            k = -((-c0) // g)
            if k:
                d[()] = k
            q = Poly(d)
        return q

    def relfacts(self, p):
        """Facts that can bear on p: those sharing atoms with it, transitively, and floor definitions."""
        at = {a for m in p.d for a in m}
        out = []
        facts = list(self.facts)
        for _ in range(3):
            n = len(at)
            for a in list(at):
                A = self.atoms[a]
                if A.E is not None:
                    at |= {x for m in A.E.d for x in m}
            for f in facts:
                fa = {x for m in f.d for x in m}
                if fa & at or any(self.atoms[x].E is not None and any(y in at for m in self.atoms[x].E.d for y in m) for x in fa - at):
                    at |= fa
            if len(at) == n:
                break
        for a in at:
            A = self.atoms[a]
            if A.E is not None:
                k = 1 << A.k
                out.append(Poly({(a,): k}).add(A.E, -1))
                out.append(A.E.add(Poly({(a,): -k})).add(pconst(1 - k)))
        out += [f for f in facts if any(x in at for m in f.d for x in m)]
        return out[-14:]

    def relupper(self, p, want):
        """Sound upper bound of p from intervals and path facts, stopping once it is <= want."""
        best = self.prange(p.d)[1]
        if best <= want:
            return best
        return self._relup(p, self.relfacts(p), want, 4)

    def _relup(self, p, cons, want, depth):
        best = self.prange(p.d)[1]
        if best <= want or depth == 0:
            return best
        for i, c in enumerate(cons):
            tried = set()
            for m, v in p.d.items():
                w = c.d.get(m)
                if not m or not w or (v > 0) != (w > 0):
                    continue
                # s*p = q + lam*c with s,lam > 0 cancels m
                import math
                g = math.gcd(v, w)
                s, lam = abs(w) // g, abs(v) // g
                if (s, lam) in tried:
                    continue
                tried.add((s, lam))
                q = p.scale(s).add(c, -lam)
                b = self._relup(q, cons[:i] + cons[i + 1:], want * s + s - 1, depth - 1) // s
                if b < best:
                    best = b
                if best <= want:
                    return best
        return best

    def clamp(self, v):
        """Interval tightened to the range of the polynomial."""
        if v.p is None or len(v.p.d) > 6:
            return v
        l, h = self.prange(v.p.d)
        if l <= v.lo and h >= v.hi:
            return v
        return V(max(l, v.lo), min(h, v.hi), v.p, v.may, v.t, v.u)

    def untangle(self, v):
        """A small word whose relation mentions several unknowns gets an unknown of its own."""
        if v.p is None or v.hi > 4096 or v.lo < 0 or len(v.p.d) - (() in v.p.d) < 3 or v.t or v.u:
            return v
        import math
        g = 0
        for c in v.p.d.values():
            g = math.gcd(g, c)
        hi = min(v.hi, self.relupper(v.p, 0))
        return self.relatom(v.lo, hi, 'cell', g & -g) if hi >= v.lo else v

    def relrange(self, v, lo, hi):
        """Is lo <= v <= hi provable from the relations?"""
        return v.p is not None and (v.hi <= hi or self.relupper(v.p, hi) <= hi) and (v.lo >= lo or self.relupper(v.p.scale(-1), -lo) <= -lo)

    def reljoin(self, a, b, lo, hi, may, name):
        """Joined value of two related integers; earlier joins of the same merge point are reused."""
        if self.jl is None:
            return None
        for x, y, n in self.jl:
            if x == a.p and y == b.p:
                return n
            dx = y.add(x, -1)
            dy = b.p.add(a.p, -1)
            if not dx.d:
                continue
            r = affine(a.p, x, dx, dy, n)
            if r is not None:
                return r
        if 1 < len(self.jl) <= 12:
            # sum or difference of two values joined before
            for i, (x1, y1, n1) in enumerate(self.jl):
                for x2, y2, n2 in self.jl[:i]:
                    for c1, c2 in ((1, 1), (1, -1), (-1, 1)):
                        r = a.p.add(x1, -c1).add(x2, -c2)
                        if r.isconst() and r == b.p.add(y1, -c1).add(y2, -c2):
                            return r.add(n1, c1).add(n2, c2)
        step = 1
        if may:
            step = may & -may
        v = self.relatom(lo, hi, name, step)
        self.jl.append((a.p, b.p, v.p))
        return v.p

    def top(self, w, t=0, u=False, name='top'):
        return self.fresh(0, (1 << w) - 1, name, t, u)

    def pname(self, m):
        return '*'.join(self.atoms[a].name + '#%d' % a for a in m) or '1'

    def show(self, p, n=12):
        if p is None:
            return '?'
        s = ' + '.join('%d*%s' % (c, self.pname(m)) for m, c in sorted(p.d.items())[:n])
        return s + (' ...(%d terms)' % len(p.d) if len(p.d) > n else '')

    # ---- bounds
    def mrange(self, m):
        lo = hi = 1
        A = self.atoms
        for i in m:
            a = A[i]
            c = (lo * a.lo, lo * a.hi, hi * a.lo, hi * a.hi)
            lo, hi = min(c), max(c)
        if len(m) == 2 and m[0] == m[1] and lo < 0:
            lo = 0
        return lo, hi

    def prange(self, d):
        lo = hi = 0
        for m, c in d.items():
            if not m:
                lo += c
                hi += c
                continue
            if len(m) == 1:
                a = self.atoms[m[0]]
                l, h = a.lo, a.hi
            else:
                l, h = self.mrange(m)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return lo, hi

    def upper(self, p, subst=None, want=None):
        """A sound upper bound of p by back-substitution of floor atoms, newest first."""
        key = (p, want) if not subst else None
        if key and key in self.ubcache:
            return self.ubcache[key]
        d = dict(p.d)
        if subst:
            d = self._subst(d, subst)
        den = 1
        best = self.prange(d)[1]
        import heapq
        # all linear floor atoms, newest first
        A = self.atoms
        heap = [-m[0] for m in d if len(m) == 1 and A[m[0]].E is not None]
        heapq.heapify(heap)
        seen = set()
        steps = 0
        while heap:
            if want is not None and best <= want:
                break
            a = -heapq.heappop(heap)
            if a in seen:
                continue
            c = d.get((a,))
            if not c:
                continue
            if steps > 3000 or len(d) > 20000:
                break
            steps += 1
            at = A[a]
            E, k = at.E, at.k
            if k > 0:
                # multiply everything so that c/2^k is integral
                s = (1 << k)
                import math
                g = math.gcd(c, s)
                mul = s // g
                f = c // g
                if mul != 1:
                    d = {m: v * mul for m, v in d.items()}
                    den *= mul
                    del d[(a,)]
                else:
                    del d[(a,)]
            else:
                f = c
                del d[(a,)]
            for m, v in (self._subst(E.d, subst) if subst else E.d).items():
                x = d.get(m, 0) + f * v
                if x:
                    if m not in d and len(m) == 1 and A[m[0]].E is not None and m[0] not in seen:
                        heapq.heappush(heap, -m[0])
                    d[m] = x
                else:
                    d.pop(m, None)
            if f < 0:
                x = d.get((), 0) - f * ((1 << k) - 1)
                if x:
                    d[()] = x
                else:
                    d.pop((), None)
            h = self.prange(d)[1]
            h = h // den
            if h < best:
                best = h
        if key:
            self.ubcache[key] = best
        return best

    def lower(self, p, subst=None, want=None):
        return -self.upper(p.scale(-1), subst, None if want is None else -want)

    def _subst(self, d, subst):
        r = {}
        for m, c in d.items():
            if m:
                n = []
                for a in m:
                    if a in subst:
                        c *= subst[a]
                    else:
                        n.append(a)
                m = tuple(n)
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def chain(self, c, targets, depth=24):
        """Path of floor atoms from c down to one of targets through their defining sums."""
        A = self.atoms
        st = [(c, (c,))]
        seen = set()
        while st:
            a, path = st.pop()
            if a in targets:
                return path
            if a in seen or len(path) > depth:
                continue
            seen.add(a)
            E = A[a].E
            if E is None:
                continue
            for m, v in E.d.items():
                if len(m) == 1 and v > 0 and A[m[0]].E is not None and m[0] < a:
                    st.append((m[0], path + (m[0],)))
        return None

    def upper_bits(self, p, want):
        """Upper bound of p by splitting on small-range carry atoms that occur linearly in p with a
        positive coefficient, using for carry=1 the non-negativity of the words of its carry chain."""
        A = self.atoms
        cands = [m[0] for m, v in p.d.items() if len(m) == 1 and v > 0 and A[m[0]].E is not None and A[m[0]].hi - A[m[0]].lo == 1]
        negs = {m[0]: v for m, v in p.d.items() if len(m) == 1 and v < 0 and A[m[0]].E is not None}
        for c in sorted(cands, reverse=True)[:6]:
            path = self.chain(c, set(negs) - {c})
            if not path:
                continue
            worst = None
            ok = True
            for val in (A[c].lo, A[c].hi):
                q = Poly(dict(p.d))
                u0 = self.upper(q, {c: val}, want)
                if u0 > want:
                    # add non-negative remainders so that the chain telescopes
                    for a in reversed(path[:-1]):
                        nxt = path[path.index(a) + 1]
                        E = A[a].E
                        e = E.d[(nxt,)]
                        coef = q.d.get((nxt,), 0)
                        if coef >= 0:
                            break
                        lam = -coef // e
                        if lam * e != -coef:
                            lam = -(-(-coef) // e)
                        rem = E.add(Poly({(a,): -(1 << A[a].k)}))
                        q = q.add(rem, lam)
                    u0 = self.upper(q, {c: val}, want)
                if u0 > want:
                    ok = False
                    break
                worst = u0 if worst is None else max(worst, u0)
            if ok:
                return worst
        return None

    def implied(self, c, val):
        """Values of two-valued carry atoms forced by atom c having value val."""
        A = self.atoms
        sub = {c: val}
        todo = [c]
        n = 0
        while todo and n < 40:
            n += 1
            a = todo.pop()
            at = A[a]
            if at.E is None or len(at.E.d) > 48:
                continue
            L = sub[a] << at.k
            H = L + (1 << at.k) - 1
            for m, v in at.E.d.items():
                if len(m) != 1:
                    continue
                x = m[0]
                ax = A[x]
                if x in sub or ax.E is None or ax.hi - ax.lo != 1:
                    continue
                ok = []
                for cand in (ax.lo, ax.hi):
                    s2 = {x: cand}
                    if self.upper(at.E, s2, L - 1) < L or self.lower(at.E, s2, H + 1) > H:
                        continue
                    ok.append(cand)
                if not ok:
                    return None
                if len(ok) == 1:
                    sub[x] = ok[0]
                    todo.append(x)
        return sub

    def upper_case(self, p, want):
        """Upper bound of p by cases on one carry/borrow atom and what its value implies."""
        A = self.atoms
        cands = [m[0] for m, v in p.d.items() if len(m) == 1 and A[m[0]].E is not None and A[m[0]].hi - A[m[0]].lo == 1]
        for c in sorted(cands, reverse=True)[:4]:
            worst = None
            for val in (A[c].lo, A[c].hi):
                sub = self.implied(c, val)
                if sub is None:
                    continue
                u0 = self.upper(p, sub, want)
                if u0 > want:
                    worst = None
                    break
                worst = u0 if worst is None else max(worst, u0)
            if worst is not None:
                return worst
        return None

    # ---- ranges by cases on carries
    def flat(self, a):
        """Floor atom a as floor(N / 2^K) with inner unit carries absorbed."""
        c = self.flats.get(a)
        if c is not None:
            return c
        at = self.atoms[a]
        N, K = self._flatten(at.E, at.k)
        self.flats[a] = (N, K)
        return N, K

    def _flatten(self, N, K):
        while True:
            # absorb the newest unit carry into the lowest position
            xs = [m[0] for m, v in N.d.items() if v == 1 and len(m) == 1 and self.atoms[m[0]].E is not None]
            if not xs:
                break
            x = max(xs)
            ax = self.atoms[x]
            N = N.add(Poly({(x,): -1})).scale(1 << ax.k).add(ax.E)
            K += ax.k
        return N, K

    def decided(self, a, k):
        """floor(a / 2^k) when it is a unit carry whose value the domain can prove."""
        if not self.pm or not self.deepbound or a.p is None or len(a.p.d) > 40 or (a.hi >> k) - (a.lo >> k) != 1 or a.p.isconst():
            return None
        if any(len(m) > 1 for m in a.p.d):
            return None
        L = (a.lo >> k) << k
        r = self._norm(V(a.lo - L, a.hi - L, a.p.add(pconst(-L)) if L else a.p), 0, (1 << k) - 1, k, False)
        if r is None or r.p is None:
            return None
        d = a.p.add(r.p, -1)
        if not d.isconst() or d.const() & ((1 << k) - 1):
            return None
        return d.const() >> k

    def flat_norm(self, p, w, k0, k1):
        """floor(p / 2^w) when the whole carry chain below p, read as one wide sum, decides it."""
        if any(len(m) > 1 for m in p.d):
            return None
        N, K = self._flatten(p, w)
        if K == w or len(N.d) > 120 or any(len(m) > 1 for m in N.d):
            return None
        for k in range(k0, k1 + 1) if k1 - k0 <= 2 else (k0, k1):
            H, L = (k << K) + (1 << K) - 1, k << K
            if (self.upper(N, None, H) <= H or self.upper_case(N, H) is not None) and \
               (self.lower(N, None, L) >= L or self.upper_case(N.scale(-1), -L) is not None):
                return k
        return None

    def bound_with(self, p, cons, subst, want):
        """Upper bound of p given cons: list of polys known to be <= 0."""
        best = self.upper(p, subst, want)
        if best <= want:
            return best
        for i, c in enumerate(cons):
            tried = set()
            for m, v in list(p.d.items()):
                w = c.d.get(m)
                if not m or not w or (v > 0) != (w > 0):
                    continue
                lam = v // w
                if lam == 0 or lam in tried:
                    continue
                tried.add(lam)
                if len(tried) > 3:
                    break
                q = p.add(c, -lam)      # p = q + lam*c <= q when lam > 0, c <= 0
                b = self.bound_with(q, cons[:i] + cons[i + 1:], subst, want) if len(cons) > 1 else self.upper(q, subst, want)
                best = min(best, b)
                if best <= want:
                    return best
        return best

    def range_cases(self, p, lo, hi, depth=3, cons=(), subst=None):
        """Prove lo <= p <= hi, by cases on the carries that occur in p."""
        subst = subst or {}
        q = Poly(self._subst(p.d, subst)) if subst else p
        cl = list(cons)
        if self.bound_with(q, cl, subst, hi) <= hi and self.bound_with(q.scale(-1), cl, subst, -lo) <= -lo:
            return True
        if depth == 0:
            return False
        A = self.atoms
        cands = sorted({a for m in q.d for a in m if a not in subst and A[a].E is not None and A[a].hi - A[a].lo <= 3}, reverse=True)
        for c in cands[:3]:
            N, K = self.flat(c)
            ok = True
            for val in range(A[c].lo, A[c].hi + 1):
                s2 = dict(subst)
                s2[c] = val
                n2 = Poly(self._subst(N.d, s2))
                c1 = n2.add(pconst(-((val << K) + (1 << K) - 1)))
                c2 = n2.scale(-1).add(pconst(val << K))
                if self.lower(n2, s2, (val << K) + (1 << K)) > (val << K) + (1 << K) - 1 or self.upper(n2, s2, (val << K) - 1) < (val << K):
                    continue
                if not self.range_cases(p, lo, hi, depth - 1, [Poly(self._subst(x.d, s2)) for x in cl] + [c1, c2], s2):
                    ok = False
                    break
            if ok:
                return True
        return False

    # ---- floor
    def floor(self, p, k, lo, hi, name='f'):
        """floor(p / 2^k) as a poly; lo,hi: interval of p."""
        if k == 0:
            return p
        if p.isconst():
            return pconst(p.const() >> k)
        s = 1 << k
        if len(p.d) <= 2:
            ms = [m for m in p.d if m]
            if len(ms) == 1 and len(ms[0]) == 1:
                at = self.atoms[ms[0][0]]
                if at.hi - at.lo == 1:
                    c0, c1 = p.const(), p.d[ms[0]]
                    f0, f1 = (c0 + c1 * at.lo) >> k, (c0 + c1 * at.hi) >> k
                    return Poly({ms[0]: f1 - f0} if f1 != f0 else {}).add(pconst(f0 - (f1 - f0) * at.lo))
        if len(p.d) <= 16 and any(len(m) > 1 for m in p.d):
            r = self.boolmap(p, lambda n: n >> k)
            if r is not None:
                return r
        # slice of a slice: p = E mod 2^kq with kq >= k
        for m, c in p.d.items():
            if c < 0 and len(m) == 1 and -c >= s:
                at = self.atoms[m[0]]
                if at.E is not None and (1 << at.k) == -c and len(p.d) == len(at.E.d) + 1:
                    E = at.E
                    if all(p.d.get(x) == y for x, y in E.d.items()):
                        l, h = self.prange(E.d)
                        f = self.floor(E, k, max(l, at.lo << at.k), min(h, ((at.hi + 1) << at.k) - 1))
                        return f.add(Poly({m: -(1 << (at.k - k))}))
        # remainder of an earlier division plus whole multiples: p = (E mod 2^k) + 2^k R
        for m, c in p.d.items():
            if c == -s and len(m) == 1:
                at = self.atoms[m[0]]
                if at.E is not None and at.k == k and len(at.E.d) <= len(p.d) + 1:
                    R = p.add(at.E, -1).add(Poly({m: s}))
                    if all(x % s == 0 for x in R.d.values()):
                        return Poly({n: x >> k for n, x in R.d.items()})
        # slice of nested floors of the same word: floor(E/2^a) - 2^n floor(E/2^(a+n))
        if len(p.d) == 2:
            (m1, c1), (m2, c2) = p.d.items()
            if c1 < 0:
                m1, c1, m2, c2 = m2, c2, m1, c1
            if c1 == 1 and c2 < 0 and len(m1) == 1 and len(m2) == 1 and -c2 >= s:
                x, y = self.atoms[m1[0]], self.atoms[m2[0]]
                if x.E is not None and y.E is not None and -c2 == 1 << (y.k - x.k) if y.E is not None and x.E is not None and y.k > x.k else False:
                    if x.E == y.E:
                        f = self.floor(x.E, x.k + k, *self.prange(x.E.d))
                        return f.add(Poly({m2: -(1 << (y.k - x.k - k))}))
        A, B = {}, {}
        for m, c in p.d.items():
            q, r = divmod(c, s)
            if r == 0:
                A[m] = q
            elif m == () and (c < 0 or c >= s):
                if q:
                    A[m] = q
                B[m] = r
            else:
                B[m] = c
        Ap = Poly(A)
        if not B:
            return Ap
        if A:
            l2, h2 = self.prange(B)
            if l2 >> k == h2 >> k:
                return Ap.add(pconst(l2 >> k))
            al, ah = self.prange(A)
            if al != ah and ((l2 >> k) + al < (lo >> k) or (h2 >> k) + ah > (hi >> k)):
                # pulling the multiples out would lose the interval: keep the sum together
                A, B = {}, dict(p.d)
                Ap = ZERO
                l2, h2 = self.prange(B)
                lo, hi = max(lo, l2), min(hi, h2)
            elif al == ah:
                lo, hi = max(lo - (al << k), l2), min(hi - (al << k), h2)
            else:
                lo, hi = l2, h2
        else:
            l2, h2 = self.prange(B)
            lo, hi = max(lo, l2), min(hi, h2)
        if lo >> k == hi >> k:
            return Ap.add(pconst(lo >> k))
        # common power of two
        g = None
        for c in B.values():
            z = (c & -c).bit_length() - 1
            g = z if g is None or z < g else g
        if g:
            return Ap.add(self.floor(Poly({m: c >> g for m, c in B.items()}), k - g, lo >> g, hi >> g, name))
        Bp = Poly(B)
        # nested floors
        if len(B) == 1:
            (m, c), = B.items()
            if c == 1 and len(m) == 1:
                at = self.atoms[m[0]]
                if at.E is not None:
                    return Ap.add(self.floor(at.E, at.k + k, *self.prange(at.E.d)))
        key = (Bp, k)
        a = self.floors.get(key)
        if a is None:
            a = self.atom(lo >> k, hi >> k, name, Bp, k)
            self.floors[key] = a
        else:
            at = self.atoms[a]
            at.lo = max(at.lo, lo >> k)
            at.hi = min(at.hi, hi >> k)
        return Ap.add(Poly({(a,): 1}))

    # ---- normalisation
    def nu(self, v, w):
        """Unsigned w-bit reading."""
        M = (1 << w)
        if v.lo >= 0 and v.hi < M:
            return v
        return self._norm(v, 0, M - 1, w)

    def ns(self, v, w):
        h = 1 << (w - 1)
        if v.lo >= -h and v.hi < h:
            return v
        return self._norm(v, -h, h - 1, w)

    def _norm(self, v, L, H, w, split=True):
        s = 1 << w
        k0, k1 = (v.lo - L) >> w, (v.hi - L) >> w
        if k0 == k1:
            if k0 == 0:
                return v
            return V(v.lo - k0 * s, v.hi - k0 * s, None if v.p is None else v.p.add(pconst(-k0 * s)), None, v.t, v.u)
        if v.p is None or not self.pm:
            if self.rel and v.p is not None and split:
                l2, h2 = self.prange(v.p.d)
                lo, hi = max(v.lo, l2), min(v.hi, h2)
                k0, k1 = (lo - L) >> w, (hi - L) >> w
                if k0 == k1:
                    return V(lo - k0 * s, hi - k0 * s, v.p.add(pconst(-k0 * s)) if k0 else v.p, None, v.t, v.u)
                if self.relrange(v, L, H):
                    return V(max(lo, L), min(hi, H), v.p, None, v.t, v.u)
            return V(L, H, None, None, v.t, v.u)
        lo, hi = v.lo, v.hi
        l2, h2 = self.prange(v.p.d)
        lo, hi = max(lo, l2), min(hi, h2)
        if self.deepbound and len(v.p.d) <= 3000 and ((lo - L) >> w != (hi - L) >> w):
            if (hi - L) >> w:
                # try to prove the next lower multiple
                want = L + (((hi - L) >> w) << w) - 1
                h2 = self.upper(v.p, None, max(want, H) if want < H else want)
                hi = min(hi, h2)
                if hi > H:
                    h3 = self.upper_bits(v.p, H)
                    if h3 is None:
                        h3 = self.upper_case(v.p, H)
                    if h3 is not None:
                        hi = min(hi, h3)
            if lo < L:
                lo = max(lo, self.lower(v.p, None, L))
                if lo < L and len(v.p.d) < 200:
                    h3 = self.upper_case(v.p.scale(-1), -L)
                    if h3 is not None:
                        lo = max(lo, -h3)
        if self.deepbound and (lo - L) >> w != (hi - L) >> w and len(v.p.d) < 200:
            k2 = self.flat_norm(v.p.add(pconst(-L)) if L else v.p, w, (lo - L) >> w, (hi - L) >> w)
            if k2 is not None:
                lo, hi = max(lo, L + k2 * s), min(hi, L + k2 * s + s - 1)
        if (lo - L) >> w == (hi - L) >> w:
            k0 = (lo - L) >> w
            return V(lo - k0 * s, hi - k0 * s, v.p.add(pconst(-k0 * s)) if k0 else v.p, None, v.t, v.u)
        if not split:
            return None
        q = self.floor(v.p.add(pconst(-L)) if L else v.p, w, lo - L, hi - L, 'w')
        return V(L, H, v.p.add(q, -s), None, v.t, v.u)

    def limit(self, p, lo, hi, name):
        if self.rel:
            return None
        if p is not None and len(p.d) > self.maxterms:
            return Poly({(self.atom(lo, hi, name),): 1}) if self.pm else None
        return p

    def mayof(self, v):
        """bits possibly set of an unsigned-normalised value"""
        m = (1 << v.hi.bit_length()) - 1
        if v.may is not None:
            m &= v.may
        elif v.p is not None and v.p.d and self.pm:
            g = 0
            for c in v.p.d.values():
                g |= c
            m &= ~((g & -g) - 1)
        return m

    # ---- arithmetic (lazy: results are not wrapped)
    def add(self, a, b):
        t, u = a.t | b.t, a.u or b.u
        p = a.p.add(b.p) if (self.pm or self.rel) and a.p is not None and b.p is not None else None
        lo, hi = a.lo + b.lo, a.hi + b.hi
        may = None
        if a.may is not None and b.may is not None and not (a.may & b.may) and a.lo >= 0 and b.lo >= 0:
            may = a.may | b.may
        elif lo >= 0 and a.lo >= 0 and b.lo >= 0:
            may = self._lowzero(a, b, hi)
        if lo == hi and p is None:
            p = pconst(lo)
        if p is not None and len(p.d) > self.maxterms:
            p = self.limit(p, lo, hi, 'sum')
        return V(lo, hi, p, may, t, u)

    def _lowzero(self, a, b, hi):
        ma, mb = a.may, b.may
        if ma is None or mb is None:
            if ma is None and a.lo == a.hi:
                ma = a.lo
            if mb is None and b.lo == b.hi:
                mb = b.lo
            if ma is None or mb is None:
                return None
        m = ma | mb
        if m == 0 or m & 1:
            return None
        low = (m & -m) - 1
        return ((1 << hi.bit_length()) - 1) & ~low

    def sub(self, a, b):
        t, u = a.t | b.t, a.u or b.u
        p = a.p.add(b.p, -1) if (self.pm or self.rel) and a.p is not None and b.p is not None else None
        lo, hi = a.lo - b.hi, a.hi - b.lo
        if p is not None and p.isconst():
            lo = hi = p.const()
        elif p is not None and self.pm and len(b.p.d) == 1:
            # a - 2^k floor(a / 2^k)
            (m, c), = b.p.d.items()
            if len(m) == 1 and c > 1 and self.atoms[m[0]].k is not None and c == 1 << self.atoms[m[0]].k and self.atoms[m[0]].E == a.p:
                lo, hi = max(lo, 0), min(hi, c - 1)
        if lo == hi and p is None:
            p = pconst(lo)
        return V(lo, hi, p, lo if lo == hi and lo >= 0 else None, t, u)

    def mul(self, a, b):
        t, u = a.t | b.t, a.u or b.u
        c = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        lo, hi = min(c), max(c)
        p = None
        if lo == hi:
            p = pconst(lo)
        elif self.rel:
            if a.p is not None and b.p is not None:
                if a.p.isconst():
                    p = b.p.scale(a.p.const())
                elif b.p.isconst():
                    p = a.p.scale(b.p.const())
        elif self.pm and a.p is not None and b.p is not None:
            if a.p.isconst():
                p = b.p.scale(a.p.const())
            elif b.p.isconst():
                p = a.p.scale(b.p.const())
            elif len(a.p.d) * len(b.p.d) <= self.maxterms:
                p = a.p.mul(b.p)
            else:
                p = Poly({(self.atom(lo, hi, 'prod'),): 1})
        may = None
        if a.lo >= 0 and b.lo == b.hi and b.lo > 0 and b.lo & (b.lo - 1) == 0 and a.may is not None:
            may = a.may * b.lo
        elif self.rel and a.lo >= 0 and lo < hi and b.lo == b.hi and b.lo > 0 and b.lo & 1 == 0:
            may = ((1 << hi.bit_length()) - 1) & -(b.lo & -b.lo)
        return V(lo, hi, p, may, t, u)

    def shl(self, a, k, w=None):
        if w is not None and k >= w:
            return C(0)
        r = V(a.lo << k, a.hi << k, a.p.scale(1 << k) if a.p is not None else None, (self.mayof(a) << k) if a.lo >= 0 else None, a.t, a.u)
        if w is not None and r.hi >= (1 << (2 * w + 8)):
            r = self.nu(r, w)
        return r

    def lshr(self, a, k, w):
        a = self.nu(a, w)
        if k == 0:
            return a
        p = None
        j = self.decided(a, k)
        if j is not None:
            return self.tag(C(j), a.t, a.u)
        if self.rel and a.p is not None and not a.p.isconst():
            s = 1 << k
            if all(c % s == 0 for c in a.p.d.values()):
                p = Poly({m: c >> k for m, c in a.p.d.items()})
            else:
                p = self.floor(a.p, k, a.lo, a.hi, 'q')
        if self.pm and a.p is not None:
            p = self.floor(a.p, k, a.lo, a.hi, 'q')
        lo, hi = a.lo >> k, a.hi >> k
        if p is not None:
            if p.isconst():
                lo = hi = p.const()
            elif len(p.d) == 1:
                l2, h2 = self.prange(p.d)
                lo, hi = max(lo, l2), min(hi, h2)
        return V(lo, hi, p, self.mayof(a) >> k, a.t, a.u)

    def ashr(self, a, k, w):
        a = self.ns(a, w)
        if k >= w:
            k = w - 1
        j = self.decided(a, k)
        if j is not None:
            return self.tag(C(j), a.t, a.u)
        p = self.floor(a.p, k, a.lo, a.hi, 'q') if self.pm and a.p is not None else None
        return V(a.lo >> k, a.hi >> k, p, None, a.t, a.u)

    def bits(self, a, s, t, w):
        """bits [s,t) of a, moved to position 0"""
        a = self.nu(a, w)
        if t >= w or a.hi >> t == 0:
            return self.lshr(a, s, w)
        q = self.lshr(a, s, w)
        n = t - s
        M = (1 << n) - 1
        if q.hi <= M:
            return q
        p = None
        if self.rel and q.p is not None:
            if self.relrange(q, 0, M):
                r = V(max(q.lo, 0), min(q.hi, M), q.p, self.mayof(q) & M, a.t, a.u)
                if q.hi > M:
                    r.hi = min(r.hi, self.relupper(q.p, 0))
                return r
            h = self.floor(q.p, n, q.lo, q.hi, 'q')
            p = q.p.add(h, -(1 << n))
        k = self.decided(q, n)
        if k is not None:
            r = V(0, M, q.p.add(pconst(-k << n)), None)
            may = (self.mayof(a) >> s) & M
            return V(0, min(M, may), r.p, may, a.t, a.u)
        if self.pm and q.p is not None:
            h = self.floor(q.p, n, q.lo, q.hi, 'q')
            p = q.p.add(h, -(1 << n))
        may = (self.mayof(a) >> s) & M
        lo, hi = 0, min(M, may)
        if q.lo >> n == q.hi >> n:
            lo, hi = q.lo & M, q.hi & M
        return V(lo, hi, p, may, a.t, a.u)

    def band(self, a, b, w):
        if a.isc() and not b.isc():
            a, b = b, a
        t, u = a.t | b.t, a.u or b.u
        if a.isc() and b.isc():
            return self.tag(C((a.lo & b.lo) & ((1 << w) - 1)), t, u)
        if b.isc():
            m = b.lo & ((1 << w) - 1)
            if m == 0:
                return self.tag(C(0), t, u) if (a.u and False) else C(0)
            if m == (1 << w) - 1:
                return self.tag(a, t, u)
            if a.lo >= -1 and a.hi <= 0:
                r = self.mul(self.neg(a), C(m))
                return V(0, m, r.p, m, t, u)
            a = self.nu(a, w)
            am = self.mayof(a)
            if am & ~m == 0:
                return self.tag(a, t, u)
            if a.p is not None and self.pm and len(a.p.d) == 1:
                # a word that is all zeros or all ones
                (x, c), = a.p.d.items()
                if c == (1 << w) - 1 and len(x) == 1 and self.atoms[x[0]].lo == 0 and self.atoms[x[0]].hi == 1:
                    return V(0, m, Poly({x: m}), m, t, u)
            r = None
            s = 0
            n = 0
            while m >> s:
                if not (m >> s) & 1:
                    s += 1
                    continue
                e = s
                while (m >> e) & 1:
                    e += 1
                if (am >> s) & ((1 << (e - s)) - 1):
                    x = self.shl(self.bits(a, s, e, w), s)
                    r = x if r is None else self.add(r, x)
                    n += 1
                s = e
            if r is None:
                return self.tag(C(0), t, u)
            if self.rel and r.p is None and m < 4096 and not (t or u):
                x = self.relatom(max(r.lo, 0), min(r.hi, m), 'and')
                return V(x.lo, x.hi, x.p, am & m, t, u)
            r = V(r.lo, min(r.hi, m), r.p, am & m, t, u)
            return r
        # both unknown
        for x, y in ((a, b), (b, a)):
            if x.lo >= -1 and x.hi <= 0:
                # x is 0 or all-ones
                yy = self.nu(y, w)
                r = self.mul(self.neg(x), yy)
                return V(0, yy.hi, r.p, yy.may, t, u)
        for x in (a, b):
            if w == 1:
                x.lo
        a, b = self.nu(a, w), self.nu(b, w)
        am, bm = self.mayof(a), self.mayof(b)
        m = am & bm
        if m == 0:
            return self.tag(C(0), t, u)
        if a.p is not None and a.p == b.p:
            return self.tag(a, t, u)
        if a.hi <= 1 and b.hi <= 1:
            r = self.mul(a, b)
            return V(0, 1, r.p, 1, t, u)
        hi = min(a.hi, b.hi, m)
        r = self.fresh(0, hi, 'and', t, u)
        return V(0, hi, r.p, m, t, u)

    def tag(self, v, t, u):
        if v.t == t and v.u == u:
            return v
        return V(v.lo, v.hi, v.p, v.may, t, u)

    def neg(self, a):
        return V(-a.hi, -a.lo, a.p.scale(-1) if a.p is not None else None, None, a.t, a.u)

    def bnot(self, a, w):
        r = self.neg(a)
        return V(r.lo - 1, r.hi - 1, r.p.add(pconst(-1)) if r.p is not None else None, None, a.t, a.u)

    def bor(self, a, b, w):
        t, u = a.t | b.t, a.u or b.u
        if a.isc() and b.isc():
            return self.tag(C((a.lo | b.lo) & ((1 << w) - 1)), t, u)
        for x, y in ((a, b), (b, a)):
            if y.isc() and (y.lo & ((1 << w) - 1)) == (1 << w) - 1:
                return C(y.lo)
            if y.isc() and (y.lo & ((1 << w) - 1)) == 0:
                return self.tag(x, t, u)
        for x, y in ((a, b), (b, a)):
            if y.isc():
                m = y.lo & ((1 << w) - 1)
                x2 = self.band(x, C(~m & ((1 << w) - 1)), w)
                r = self.add(x2, C(m))
                return V(r.lo, r.hi, r.p, self.mayof(x2) | m, t, u)
        a, b = self.nu(a, w), self.nu(b, w)
        am, bm = self.mayof(a), self.mayof(b)
        if am & bm == 0:
            r = self.add(a, b)
            return V(max(a.lo, b.lo), min(r.hi, am | bm), r.p, am | bm, t, u)
        if a.p is not None and a.p == b.p:
            return self.tag(a, t, u)
        hi = am | bm
        if a.hi <= 1 and b.hi <= 1 and a.p is not None and b.p is not None and self.pm:
            p = a.p.add(b.p).add(a.p.mul(b.p), -1)
            return V(max(a.lo, b.lo), 1, p, 1, t, u)
        lo = max(a.lo, b.lo)
        if self.exclusive(a, b):
            r = self.add(a, b)
            return V(0, max(a.hi, b.hi), r.p, hi, t, u)
        if self.pm and a.p is not None and b.p is not None:
            s = self.orset(a.p) | self.orset(b.p)
            at = self.orsets.get(s)
            if at is None:
                at = self.atom(lo, hi, 'or')
                self.atoms[at].ors = s
                self.orsets[s] = at
            return V(lo, hi, Poly({(at,): 1}), hi, t, u)
        r = self.fresh(lo, hi, 'or', t, u)
        return V(r.lo, r.hi, r.p, hi, t, u)

    def bxor(self, a, b, w):
        t, u = a.t | b.t, a.u or b.u
        M = (1 << w) - 1
        if a.isc() and b.isc():
            return self.tag(C((a.lo ^ b.lo) & M), t, u)
        for x, y in ((a, b), (b, a)):
            if y.isc():
                m = y.lo & M
                if m == 0:
                    return self.tag(x, t, u)
                if m == M:
                    return self.tag(self.bnot(x, w), t, u)
        if a.p is not None and a.p == b.p:
            return self.tag(C(0), t, u)
        for x, y in ((a, b), (b, a)):
            if y.isc():
                m = y.lo & M
                x = self.nu(x, w)
                am = self.mayof(x)
                if am & m == 0:
                    return self.tag(self.add(x, C(m)), t, u)
                # x ^ m = x + m - 2*(x & m)
                z = self.band(x, C(m), w)
                r = self.sub(self.add(x, C(m)), self.mul(C(2), z))
                return V(0, am | m, r.p, am | m, t, u)
        for x, y in ((a, b), (b, a)):
            if y.lo >= -1 and y.hi <= 0 and y.p is not None and x.p is not None and self.pm and len(x.p.d) * len(y.p.d) < 400:
                # y = -m, m in {0,1}:  x ^ y = x + m*(2^w - 1 - 2x)  (as integer, x unsigned)
                xu = self.nu(x, w)
                mm = self.neg(y)
                r = self.add(xu, self.mul(mm, self.sub(C(M), self.mul(C(2), xu))))
                return V(0, M, r.p, None, t, u)
        a, b = self.nu(a, w), self.nu(b, w)
        am, bm = self.mayof(a), self.mayof(b)
        if am & bm == 0:
            r = self.add(a, b)
            return V(max(a.lo, b.lo), min(r.hi, am | bm), r.p, am | bm, t, u)
        hi = am | bm
        if a.hi <= 1 and b.hi <= 1 and a.p is not None and b.p is not None and self.pm:
            p = a.p.add(b.p).add(a.p.mul(b.p), -2)
            return V(0, 1, p, 1, t, u)
        if self.exclusive(a, b):
            r = self.add(a, b)
            return V(0, max(a.hi, b.hi), r.p, hi, t, u)
        if self.pm and a.p is not None and b.p is not None:
            s = self.xorset(a.p) ^ self.xorset(b.p)
            if not s:
                return self.tag(C(0), t, u)
            if len(s) == 1:
                (q,) = s
                l, h = self.prange(q.d)
                return V(0, hi, q, hi, t, u)
            at = self.xors.get(s)
            if at is None:
                at = self.atom(0, hi, 'xor')
                self.atoms[at].xor = s
                self.xors[s] = at
            return V(0, hi, Poly({(at,): 1}), hi, t, u)
        r = self.fresh(0, hi, 'xor', t, u)
        return V(0, hi, r.p, hi, t, u)

    def exclusive(self, a, b):
        """one of the two is zero, whichever value some bit takes"""
        if not self.pm or a.p is None or b.p is None or len(a.p.d) + len(b.p.d) > 400:
            return False
        xs = None
        for m in a.p.d:
            xs = set(m) if xs is None else xs & set(m)
            if not xs:
                break
        ys = None
        for m in b.p.d:
            ys = set(m) if ys is None else ys & set(m)
            if not ys:
                break
        # common factor t of one, other vanishes at t = 1
        for f, q in ((xs, b.p), (ys, a.p)):
            for x in f or ():
                if self.atoms[x].lo == 0 and self.atoms[x].hi == 1 and not self._subst(q.d, {x: 1}):
                    return True
        return False

    def orset(self, p):
        """Words whose bitwise or this value is."""
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and len(m) == 1 and self.atoms[m[0]].ors is not None:
                return self.atoms[m[0]].ors
        return frozenset([p])

    def xorset(self, p):
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and len(m) == 1 and self.atoms[m[0]].xor is not None:
                return self.atoms[m[0]].xor
        return frozenset([p])

    def trunc(self, a, w):
        return a

    def join(self, a, b, name='phi'):
        if a is b:
            return a
        if isinstance(a, V) and isinstance(b, V):
            t, u = a.t | b.t, a.u or b.u
            if a.p is not None and a.p == b.p and (self.pm or self.rel):
                may = None if a.may is None or b.may is None else a.may | b.may
                return V(min(a.lo, b.lo), max(a.hi, b.hi), a.p, may, t, u)
            lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
            may = None
            if lo >= 0 and (a.may is not None or a.isc()) and (b.may is not None or b.isc()):
                may = self.mayof(a) | self.mayof(b)
            if lo == hi:
                return V(lo, hi, pconst(lo), None, t, u)
            if self.rel and a.p is not None and b.p is not None and self.jl is not None and not (t | u) and not (a.p.isconst() and b.p.isconst() and len(self.jl) > 40):
                return V(lo, hi, self.reljoin(a, b, lo, hi, may, name), may, t, u)
            r = self.fresh(lo, hi, name, t, u)
            return V(lo, hi, r.p, may, t, u)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            d = dict(a.b)
            for o, v in b.b.items():
                d[o] = self.join(d[o], v) if o in d else v
            return Ptr(d, a.t | b.t, a.u or b.u)
        if isinstance(a, Vec) and isinstance(b, Vec):
            if a.ew != b.ew:
                a, b = self.as_ew(a, 8 if min(a.ew, b.ew) == 8 else min(a.ew, b.ew)), self.as_ew(b, min(a.ew, b.ew))
            return Vec(a.ew, [self.join(x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(self.join(x, y) for x, y in zip(a, b))
        ta = a.t if isinstance(a, (V, Ptr)) else 0
        tb = b.t if isinstance(b, (V, Ptr)) else 0
        # pointer with integer: an undefined or null word
        if isinstance(a, Ptr) and isinstance(b, V):
            return Ptr(dict(a.b), ta | tb, a.u or b.u or not (b.isc() and b.lo == 0)) if not (b.isc() and b.lo == 0) else Ptr(dict(a.b, null=C(0)), ta | tb, a.u)
        if isinstance(b, Ptr) and isinstance(a, V):
            return self.join(b, a)
        return self.top(64, ta | tb, True)

    def as_ew(self, v, ew):
        if v.ew == ew:
            return v
        out = []
        if v.ew > ew:
            n = v.ew // ew
            for x in v.e:
                if isinstance(x, Ptr):
                    x = self.top(64, x.t)
                for i in range(n):
                    out.append(self.bits(x, i * ew, (i + 1) * ew, v.ew))
        else:
            n = ew // v.ew
            for j in range(0, len(v.e), n):
                r = None
                for i in range(n):
                    x = self.shl(self.nu(v.e[j + i], v.ew), i * v.ew)
                    r = x if r is None else self.add(r, x)
                out.append(self.simp(r))
        return Vec(ew, out)

    def boolmap(self, p, fn):
        """fn(p) as a polynomial when p only mentions a few 0/1 unknowns."""
        at = sorted({a for m in p.d for a in m})
        if len(at) > 4 or any(self.atoms[a].lo < 0 or self.atoms[a].hi > 1 for a in at):
            return None
        n = len(at)
        val = []
        for k in range(1 << n):
            val.append(fn(Poly(self._subst(p.d, {a: (k >> i) & 1 for i, a in enumerate(at)})).const()))
        for i in range(n):
            for k in range(1 << n):
                if (k >> i) & 1:
                    val[k] -= val[k ^ (1 << i)]
        return Poly({tuple(at[i] for i in range(n) if (k >> i) & 1): c for k, c in enumerate(val) if c})

    def twoval(self, v):
        """(v0, v1, c) when v takes exactly two values, v = v0 + (v1 - v0)*c with c in {0,1}."""
        if not self.pm or v.p is None or v.p.isconst() or len(v.p.d) > 16:
            return None
        at = sorted({a for m in v.p.d for a in m})
        if len(at) > 4 or any(self.atoms[a].lo < 0 or self.atoms[a].hi > 1 for a in at):
            return None
        vals = set()
        for k in range(1 << len(at)):
            s = {a: (k >> i) & 1 for i, a in enumerate(at)}
            vals.add(Poly(self._subst(v.p.d, s)).const())
        if len(vals) != 2:
            return None
        v0, v1 = sorted(vals)
        q = v.p.add(pconst(-v0))
        if any(c % (v1 - v0) for c in q.d.values()):
            return None
        c = Poly({m: c // (v1 - v0) for m, c in q.d.items()})
        return v0, v1, V(0, 1, c, 1, v.t, v.u)

    def bitnamed(self, v, w):
        """The same word as a sum of single-bit unknowns; the defining equation is kept in bitdefs."""
        v = self.nu(v, w)
        if v.p is None or v.p.isconst():
            return v
        A = self.atoms
        if all(not m or (len(m) == 1 and A[m[0]].lo >= 0 and A[m[0]].hi <= 1) for m in v.p.d):
            return v
        q = self.bitnames.get((v.p, w))
        if q is None:
            n = min(w, v.hi.bit_length())
            bs = [self.atom(0, 1, 'bit%d' % i) for i in range(n)]
            q = self.bitnames[(v.p, w)] = Poly({(b,): 1 << i for i, b in enumerate(bs)})
            self.bitdefs[bs[0]] = v.p.add(Poly({(b,): -(1 << i) for i, b in enumerate(bs) if i}))
        return V(v.lo, v.hi, q, v.may, v.t, v.u)

    def unbit(self, p):
        """p with the bit unknowns of named words folded back."""
        while p is not None:
            hit = [m for m in p.d if len(m) == 1 and m[0] in self.bitdefs]
            if not hit:
                return p
            for m in hit:
                c = p.d.get(m)
                if c:
                    p = p.add(Poly({m: -c})).add(self.bitdefs[m[0]], c)

    def simp(self, r):
        """Tighten the interval of a recombined word from its polynomial."""
        if r.p is not None and self.pm and len(r.p.d) <= 4:
            l, h = self.prange(r.p.d)
            if l > r.lo or h < r.hi:
                return V(max(l, r.lo), min(h, r.hi), r.p, r.may, r.t, r.u)
        return r
