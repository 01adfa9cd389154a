"""Hashing to edwards25519: both exported variants deliver 8*(map(u0) + map(u1)).

Four parts.  'field': the two field elements are the SHA-512 digests of 0||msg and 1||msg, reduced as the
code's own scalar routine does (P21).  'map': on every combination of outcomes of the comparisons, the
mapped point equals that of the RFC 9380 straight-line map of section G.2 with the same outcomes.  'curve':
from mapped points of unknown coordinates, the affine result equals eight times their sum as an identity of
rational functions on the curve.  'pred': the predicates test the curve equation and both coordinates."""
import random
import build, slots
from dom import Dom, V, Vec, Ptr, C, Poly
from interp import Engine, Mem, Obj
from rep import REPS, P255
from fieldsem import Sem, Lost, Wrong, ratios
from proto import Paths, L255
import proto
from ir import loc_str

P = P255
J = 486662
D = -121665 * pow(121666, -1, P) % P
SQM1 = pow(2, (P - 1) // 4, P)
# RFC 9380, G.2.1: c2 = 2^((q + 3) / 8), c3 = sqrt(-1), c4 = (q - 5) / 8; G.2.2: c1 = sqrt(-486664) with sgn0(c1) = 0
C2, C3, C4 = pow(2, (P + 3) // 8, P), SQM1, (P - 5) // 8


def sqrt(a):
    x = pow(a, (P + 3) // 8, P)
    if x * x % P != a % P:
        x = x * SQM1 % P
    return x if x * x % P == a % P else None


C1 = sqrt(-486664 % P)
if C1 & 1:
    C1 = P - C1
M64 = (1 << 64) - 1
W1, W2 = '_1w_full', '_2w_red'
FN = {'map': ('map_to_curve', 'map_to_curve_2w'), 'x64': 'h2c25519_x64', 'avx2': 'h2c25519_avx2'}


class Run(Sem):
    """Sem whose comparisons and signs take every outcome; one outcome per fact and lane."""

    def __init__(self, cfg, paths):
        self.paths = paths
        m = build.module(cfg)
        e = Engine(m, Dom(True, maxterms=20000), max_undecided=1)
        Sem.__init__(self, cfg, e, ('Fp25519',))
        self.f = self.F['Fp25519']
        self.known = {}        # lane -> {fact: outcome}
        self.dec = {}          # lane -> [(kind, F, G, outcome)]
        self.script = []       # outcomes of lane 0, in order
        self.flip = 0
        self.mem = Mem()
        for path, fn in slots.field_table(m, 'Fp25519').items():
            w, op = path.split('.')[0], path.split('.')[-1]
            if fn and op in ('cmp', 'sgn') and w != '_4w_red':
                e.callhook[fn] = self.h_dec(w, op)

    def fact(self, lane, kind, x, y=None):
        """an outcome for x == y, or for x odd"""
        f = self.f
        if kind == 'eq':
            if x == y:
                return True
            k = eqkey(f, x, y)
        else:
            k = ('odd', frozenset(x.items()))
            if not x:
                return False
        kn = self.known.setdefault(lane, {})
        if k not in kn:
            r = derive(kn, k)
            if r is not None:
                return r
            ds = self.dec.setdefault(lane, [])
            if lane == 0:
                r = self.paths.choose(2) == 0
                self.script.append(r)
            else:
                n = len(ds)
                r = (self.script[n] if n < len(self.script) else True) != bool(self.flip >> (n & 1) & 1)
            kn[k] = r
            ds.append((kind, x, y, r))
        return kn[k]

    def h_dec(self, w, op):
        rep = REPS['Fp25519'][w]

        def h(e, mem, a, ins):
            e.count('field routine calls')
            self.used.add(('Fp25519', w, op))
            self.calls['Fp25519.%s.%s' % (w.lstrip('_'), op)] = self.calls.get('Fp25519.%s.%s' % (w.lstrip('_'), op), 0) + 1
            rs = []
            for i in range(rep.n):
                xs = [self.get(mem, p, rep, 'Fp25519', i, ins) for p in (a[:2] if op == 'cmp' else a[:1])]
                if not rep.full:
                    u = max(max(ratios([b], rep.widths)) for _, b in xs)
                    if u > 3.2:
                        raise Wrong('bounds', 'an element is compared or serialised whose limbs reach %.2f units (specified up to 3.2)' % u, loc_str(ins) if ins else '')
                if op == 'cmp':
                    r = self.fact(i, 'eq', xs[0][0], xs[1][0])
                    rs.append(C(0) if r else self.d.fresh(1, 255, 'differs'))
                else:
                    rs.append(C(1 if self.fact(i, 'odd', xs[0][0]) else 0))
            if rep.n == 1:
                return rs[0]
            return Vec(64, [rs[0], C(0), rs[1], C(0)])
        return h

    def elem(self, name, w, Fs, bounds):
        rep = REPS['Fp25519'][w]
        o = Obj(name, rep.size, 'param', 'undef', align=32)
        self.mem.add(o)
        p = Ptr({name: C(0)})
        if Fs is not None:
            self.put(self.mem, p, rep, 'Fp25519', Fs, bounds, name)
        return p


def tight(w):
    rep = REPS['Fp25519'][w]
    return [M64] * 4 if rep.full else [(1 << k) - 1 for k in rep.widths]


def loose(w):
    """operand bounds for mapped points: shown of the map's results"""
    rep = REPS['Fp25519'][w]
    return [M64] * 4 if rep.full else [int(1.1 * (1 << k)) for k in rep.widths]


def eqkey(f, x, y):
    """x == y as a fact about monomials, whatever the scaling"""
    c, m = f.mono(x)
    k, n = f.mono(y)
    if not c or not k or m == n:
        return ('zero', m if c else n)
    R = dict(m)
    for v, e in n:
        R[v] = R.get(v, 0) - e
    R = tuple(sorted((v, e) for v, e in R.items() if e))
    q = c * pow(k, -1, P) % P
    if tuple((v, -e) for v, e in R) < R:
        R, q = tuple((v, -e) for v, e in R), pow(q, -1, P)
    return ('ratio', q, R)


def derive(known, k):
    """an outcome that follows from known ones: a product vanishes with a factor, and not without"""
    if k in known or k[0] != 'zero':
        return known.get(k)
    vs = {v for v, _ in k[1]}
    nz = set()
    for q, r in known.items():
        if q[0] == 'zero':
            us = {v for v, _ in q[1]}
            if r and us <= vs:
                return True
            if not r:
                nz |= us
    return False if vs <= nz else None


# ------------------------------------------------------------------ specification
class Sym:
    """ring of field values; outcomes are looked up among those of the path, others are open"""

    def __init__(self, f, known, extra):
        self.f, self.known, self.extra, self.asked = f, known, extra, []
        self.const, self.add, self.mul = f.const, f.add, f.mul

    def scale(self, a, k):
        return self.f.scale(a, k)

    def power(self, a, n):
        c, m = self.f.mono(a)
        return {((), tuple((v, self.f.mexp(e * n)) for v, e in m)): pow(c, n, P)} if c else {}

    def ask(self, k):
        r = derive(self.known, k)
        if r is not None:
            return r
        if k not in self.extra:
            self.asked.append(k)
            return True
        return self.extra[k]

    def eq(self, a, b):
        return True if a == b else self.ask(eqkey(self.f, a, b))

    def odd(self, a):
        return self.ask(('odd', frozenset(a.items()))) if a else False


class Num:
    def const(self, c):
        return c % P

    def add(self, a, b, k=1):
        return (a + k * b) % P

    def mul(self, a, b):
        return a * b % P

    def scale(self, a, k):
        return a * k % P

    def power(self, a, n):
        return pow(a, n, P)

    def eq(self, a, b):
        return a == b

    def odd(self, a):
        return bool(a & 1)


def elligator(R, u):
    """RFC 9380 G.2.1 and G.2.2: (xn, xd, yn, yd) on edwards25519"""
    mul, add, c = R.mul, R.add, R.const
    tv1 = R.scale(mul(u, u), 2)
    xd = add(tv1, c(1))
    x1n = c(-J)
    tv2 = mul(xd, xd)
    gxd = mul(tv2, xd)
    gx1 = mul(mul(c(J), tv1), x1n)
    gx1 = mul(add(gx1, tv2), x1n)
    tv3 = mul(gxd, gxd)
    tv2 = mul(tv3, tv3)
    tv3 = mul(mul(tv3, gxd), gx1)
    tv2 = mul(tv2, tv3)
    y11 = mul(R.power(tv2, C4), tv3)
    y12 = R.scale(y11, C3)
    e1 = R.eq(mul(mul(y11, y11), gxd), gx1)
    y1 = y11 if e1 else y12
    x2n = mul(x1n, tv1)
    y21 = R.scale(mul(y11, u), C2)
    y22 = R.scale(y21, C3)
    gx2 = mul(gx1, tv1)
    e3 = R.eq(mul(mul(y1, y1), gxd), gx1)
    if e3:
        xn, y = x1n, y1
    else:
        e2 = R.eq(mul(mul(y21, y21), gxd), gx2)
        xn, y = x2n, y21 if e2 else y22
    if e3 != R.odd(y):
        y = R.scale(y, -1)
    # to edwards25519
    rx, rxd = R.scale(xn, C1), mul(xd, y)
    ry, ryd = add(xn, xd, -1), add(xn, xd)
    if R.eq(mul(rxd, ryd), c(0)):
        return c(0), c(1), c(1), c(1)
    return rx, rxd, ry, ryd


def extended(R, u):
    xn, xd, yn, yd = elligator(R, u)
    return R.mul(xn, yd), R.mul(yn, xd), R.mul(xn, yn), R.mul(xd, yd)


def sameproj(f, got, want, scaled):
    """(X : Y : T : Z) equal as normal forms; up to a common factor if that is allowed"""
    if all(g == w for g, w in zip(got, want)):
        return True
    if not scaled:
        return False
    for i in range(4):
        for j in range(i):
            if f.mul(got[i], want[j]) != f.mul(got[j], want[i]):
                return False
    return any(got) and any(want)


# ------------------------------------------------------------------ map
def members(lane, u, s):
    """do the outcomes of this path hold for the element u?"""
    env = {s.uvar[lane]: u}
    for kind, x, y, r in s.dec.get(lane, ()):
        a = s.f.evaluate(x, env, {})
        t = a == s.f.evaluate(y, env, {}) if kind == 'eq' else bool(a & 1)
        if t != r:
            return False
    return True


def samples():
    rnd = random.Random(7)
    r = [0, 1, 2, 3, P - 1, P - 2, SQM1, (P - 1) // 2]
    # 2u^2 = -1 makes a denominator vanish
    z = sqrt(-pow(2, -1, P) % P)
    if z is not None:
        r += [z, P - z]
    # points of small order: x = -1 or x = 0, and y = 0 on the Montgomery curve
    for t in (J + 1, J - 1, pow(J, -1, P), pow(J - 1, -1, P), pow(J + 1, -1, P), -1, 1):
        for q in ((t - 1) * pow(2, -1, P), t * pow(2, -1, P)):
            z = sqrt(q % P)
            if z is not None:
                r += [z, P - z]
    return r + [rnd.randrange(P) for _ in range(120)]


def domap(cfg, w, ob):
    G = 'Fp25519'
    fn = FN['map'][0 if w == W1 else 1]
    m = build.module(cfg)
    if fn not in m.funcs or m.funcs[fn].decl:
        raise Lost('%s is gone' % fn)
    rep = REPS[G][w]
    und = []
    last, npaths, used, calls = None, 0, set(), {}
    us = samples()
    hit = {}
    # lane 1: the outcomes of lane 0, their opposites, and the two alternations
    for flip in ((0,) if w == W1 else (0, 3, 1, 2)):
        paths = Paths()
        while True:
            paths.start()
            s = Run(cfg, paths)
            s.flip = flip
            s.uvar = [s.f.input('u%d' % i) for i in range(rep.n)]
            u = s.elem('u', w, [s.f.var(v) for v in s.uvar], tight(w))
            o = Obj('P', 4 * rep.size, 'param', 'undef', align=32)
            s.mem.add(o)
            ret, mem = s.e.call(fn, [Ptr({'P': C(0)}), u], s.mem)
            for x in list(s.e.events.values())[:2]:
                raise Wrong('fault', repr(x), fn)
            npaths += 1
            # X, Y, Z, T in the order of the structure
            for lane in range(rep.n):
                out, lim = {}, 0
                for i, nm in enumerate('XYZT'):
                    F, b = s.get(mem, Ptr({'P': C(i * rep.size)}), rep, G, lane)
                    out[nm] = F
                    if not rep.full:
                        lim = max([lim] + [x / (1 << k) for x, k in zip(b, rep.widths)])
                got = [out[x] for x in 'XYTZ']
                tag = 'path%s lane %d%s' % (''.join('01'[r] for *_, r in s.dec.get(lane, ())), lane, ' against %d' % flip if flip else '')
                if lim > 1.1:
                    raise Wrong('limbs', 'limbs of a mapped point reach %.2f units' % lim, fn)
                known = s.known.get(lane, {})
                ok = True
                # a common factor must not vanish: not concluded where the path establishes that a product does
                scaled = not any(kind == 'eq' and r and not (x and y) for kind, x, y, r in s.dec.get(lane, ()))
                # outcomes the specification needs and the code did not establish are open: all of them
                todo = [{}]
                while todo and ok:
                    ex = todo.pop()
                    R = Sym(s.f, known, ex)
                    want = extended(R, s.f.var(s.uvar[lane]))
                    if R.asked:
                        if len(ex) > 6:
                            ok = False
                            break
                        for r in (True, False):
                            e2 = dict(ex)
                            e2[R.asked[0]] = r
                            todo.append(e2)
                        continue
                    ok = sameproj(s.f, got, want, scaled)
                if ok:
                    ob('map.' + tag, True)
                    continue
                # a contradiction needs an operand
                seen = 0
                for x in us:
                    if not members(lane, x, s):
                        continue
                    seen += 1
                    env = {s.uvar[lane]: x}
                    g = [s.f.evaluate(F, env, {}) for F in got]
                    wv = extended(Num(), x)
                    if not any(g) or any((g[i] * wv[j] - g[j] * wv[i]) % P for i in range(4) for j in range(i)):
                        ob('map.' + tag, False, 'for u = 0x%x the mapped point differs from RFC 9380 elligator2 (X/Z = 0x%x instead of 0x%x)' % (x, g[0] * pow(g[3], -1, P) % P if g[3] else 0, wv[0] * pow(wv[3], -1, P) % P), fn)
                        break
                else:
                    if seen or not flip:
                        und.append(('map.' + tag, 'the mapped point is not recognised as that of RFC 9380; no operand contradicts it (%d tried on this path)' % seen))
            used |= s.used
            for k, v in s.calls.items():
                calls[k] = calls.get(k, 0) + v
            last = s
            if not paths.next():
                break
            if npaths > 600:
                raise Lost('too many decisions in %s' % fn)
    return Res(last, used, calls, npaths, und)


class Res:
    def __init__(self, s, used, calls, paths, und):
        self.e, self.used, self.calls, self.paths, self.undecided = s.e, used, calls, paths, und


# ------------------------------------------------------------------ from mapped points to the result
def eadd(A, B):
    x1, y1 = A
    x2, y2 = B
    k = D * x1 * x2 * y1 * y2 % P
    return ((x1 * y2 + x2 * y1) * pow(1 + k, -1, P) % P, (y1 * y2 + x1 * x2) * pow(1 - k, -1, P) % P)


def randpoint(rnd):
    while True:
        y = rnd.randrange(P)
        w = (y * y - 1) * pow(D * y * y + 1, -1, P) % P
        x = sqrt(w)
        if x is not None:
            return (x if rnd.random() < .5 else -x % P, y)


def curve(cfg, which, ob):
    G = 'Fp25519'
    fn = FN[which]
    m = build.module(cfg)
    if fn not in m.funcs or m.funcs[fn].decl:
        raise Lost('%s is gone' % fn)
    s = Run(cfg, Paths())
    s.paths.start()
    f, d = s.f, s.d
    n = d.fresh(0, 1 << 60, 'len')
    o = Obj('msg', n, 'param', 'input')
    s.mem.add(o)
    o = Obj('P', 64, 'param', 'undef', align=32)
    s.mem.add(o)
    hv = {}
    pts = []

    def field(e, mem, a, ins):
        pre = d.nu(a[1], 8)
        if not pre.isc() or s.loc(a[2]) != ('msg', 0) or d.nu(a[3], 64).p != n.p:
            raise Lost('hash_to_field is called with other arguments than the message')
        v = hv[pre.lo] = hv.get(pre.lo) or f.input('h%d' % pre.lo)
        s.put(mem, a[0], REPS[G][W1], G, [f.var(v)], [M64] * 4, 'h')
        return C(0)

    def field2(e, mem, a, ins):
        if s.loc(a[2]) != ('msg', 0) or d.nu(a[3], 64).p != n.p:
            raise Lost('hash_to_field_2w is called with other arguments than the message')
        for i in (0, 1):
            v = hv[i] = hv.get(i) or f.input('h%d' % i)
            s.put(mem, a[i], REPS[G][W1], G, [f.var(v)], [M64] * 4, 'h')
        return C(0)

    def mapped(w):
        rep = REPS[G][w]

        def h(e, mem, a, ins):
            o, off = s.loc(a[0])
            cs = []
            for lane in range(rep.n):
                F, b = s.get(mem, a[1], rep, G, lane, ins)
                k = next((i for i, v in hv.items() if F == f.var(v)), None)
                if k is None:
                    raise Lost('an operand of the map that is not one of the hashed elements')
                if not rep.full and any(x > y for x, y in zip(b, tight(w))):
                    raise Lost('an operand of the map with limbs larger than analysed')
                c = [f.input('%s%d' % (x, k)) for x in 'XYZT']
                pts.append((k, c))
                cs.append(c)
            for i in range(4):
                s.put(mem, Ptr({o: C(off + i * rep.size)}), rep, G, [f.var(c[i]) for c in cs], loose(w), 'Q')
            return C(0)
        return h
    e = s.e
    for nm, h in (('hash_to_field', field), ('hash_to_field_2w', field2), ('map_to_curve', mapped(W1)), ('map_to_curve_2w', mapped(W2))):
        e.callhook[nm] = h
    ret, mem = e.call(fn, [Ptr({'P': C(0)}), Ptr({'msg': C(0)}), n], s.mem)
    for x in list(e.events.values())[:2]:
        raise Wrong('fault', repr(x), fn)
    if s.dec:
        raise Lost('comparisons of elements on the way to the result')
    X, _ = s.get(mem, Ptr({'P': C(0)}), REPS[G][W1], G)
    Y, _ = s.get(mem, Ptr({'P': C(32)}), REPS[G][W1], G)
    ks = sorted(k for k, c in pts)
    ob('both hashed elements are mapped', ks == [0, 1], 'the hashed elements mapped to the curve are %s instead of both' % ks, fn)
    if ks != [0, 1]:
        return Res(s, s.used, s.calls, 1, [])
    rnd = random.Random(5)
    for t in range(6):
        env = {}
        S = (0, 1)
        for k, c in pts:
            A = randpoint(rnd)
            z = rnd.randrange(1, P)
            for v, x in zip(c, (A[0] * z, A[1] * z, z, A[0] * A[1] * z)):
                env[v] = x % P
            S = eadd(S, A)
        for _ in range(3):
            S = eadd(S, S)
        for nm, F, w in (('x', X, S[0]), ('y', Y, S[1])):
            v = f.evaluate(F, dict(env), {})
            ob('%s of 8*(Q0+Q1)' % nm, v == w, 'the %s-coordinate delivered is not that of eight times the sum of the mapped points: 0x%x instead of 0x%x for the mapped points %s' % (nm, v, w, ', '.join('(0x%x, 0x%x)' % (env[c[0]] * pow(env[c[2]], -1, P) % P, env[c[1]] * pow(env[c[2]], -1, P) % P) for k, c in pts)), fn)
    return Res(s, s.used, s.calls, 1, [])


# ------------------------------------------------------------------ hashed elements
def field(cfg, which, ob):
    m = build.module(cfg)
    fn = 'hash_to_field' + ('_2w' if which == '2w' else '')
    if fn not in m.funcs or m.funcs[fn].decl:
        raise Lost('%s is gone' % fn)
    n = 0
    for pre in ((0, 1) if which == '1w' else (None,)):
        paths = Paths()
        while True:
            paths.start()
            r = proto.Run(m, paths, L255)
            msg, ml = proto.segment(r, 'message', 0, 1 << 60)
            outs = ['u0'] if which == '1w' else ['u0', 'u1']
            ps = [proto.buf(r, x, 32, 'out')[0] for x in outs]
            args = [ps[0], C(pre), msg, ml] if which == '1w' else ps + [msg, ml]
            ret, mem = r.e.call(fn, args, r.mem)
            n += 1
            for i, x in enumerate(outs):
                k = pre if pre is not None else i
                want = proto.cb(bytes([k])) + [('s', 'message', 0, proto.key(ml.p))]
                at = None
                for a0, (g, it, nb, at_) in r.digests.items():
                    if g == 'SHA-512' and nb == 64 and list(it) == want:
                        at = at_
                ob('digest %d' % k, at is not None, proto.why(r, want, 'digest of element %d' % k), fn)
                if at is None:
                    continue
                bs = proto.outbytes(r, mem, x, 0, 32)
                got = proto.isset(r, bs) if bs else None
                c, mo = r.f.mono(r.F(Poly({(a,): 1 << j for j, a in enumerate(at)})))
                ob('element %d' % k, got == {((), mo): c}, 'element %d is not the digest of %d || message reduced by the scalar routine' % (k, k), fn)
            if not paths.next():
                break
            if n > 200:
                raise Lost('too many decisions in %s' % fn)

    class S:
        pass
    s = S()
    s.e = r.e
    s = Res(s, set(), {k: 1 for k in r.used if isinstance(k, str)}, n, [])
    return s


# ------------------------------------------------------------------ predicates
def pred(cfg, fn, ob):
    G = 'Fp25519'
    m = build.module(cfg)
    if fn not in m.funcs or m.funcs[fn].decl:
        raise Lost('%s is gone' % fn)
    paths = Paths()
    n = 0
    lost = None
    used, calls = set(), {}
    while True:
        paths.start()
        s = Run(cfg, paths)
        f = s.f
        rep = REPS[G][W1]
        s.pvar = []
        vs = []
        args = []
        for nm in ('P',) if fn == 'isOnCurve' else ('P', 'Q'):
            o = Obj(nm, 64, 'param', 'undef', align=32)
            s.mem.add(o)
            args.append(Ptr({nm: C(0)}))
            for i, c in enumerate('xy'):
                v = f.input(c + nm)
                s.pvar.append(v)
                vs.append(f.var(v))
                s.put(s.mem, Ptr({nm: C(32 * i)}), rep, G, [f.var(v)], [M64] * 4, nm)
        if fn == 'isOnCurve':
            x2, y2 = f.mul(vs[0], vs[0]), f.mul(vs[1], vs[1])
            facts = [(f.add(f.add(y2, x2, -1), f.scale(f.mul(x2, y2), D), -1), f.const(1))]
        else:
            facts = [(vs[0], vs[2]), (vs[1], vs[3])]
        ret, mem = s.e.call(fn, args, s.mem)
        for x in list(s.e.events.values())[:2]:
            raise Wrong('fault', repr(x), fn)
        n += 1
        r = s.d.nu(ret, 32)
        if not r.isc():
            raise Lost('a result that is not constant on a path')
        keys = []
        for a, b in facts:
            keys.append({diffkey(f, a, b)})
        known = {diffkey(f, x, y) if k == 'eq' else ('odd', frozenset(x.items())): o for k, x, y, o in s.dec.get(0, ())}
        st = []
        for ks in keys:
            z = [known[k] for k in ks if k in known]
            st.append(z[0] if z else None)
        extra = set(known) - set().union(*keys)
        if extra:
            # no normal form of the specified facts: points are tried
            for env in points(fn, s.pvar):
                h = all((f.evaluate(x, dict(env), {}) == f.evaluate(y, dict(env), {}) if k == 'eq' else bool(f.evaluate(x, dict(env), {}) & 1)) == o for k, x, y, o in s.dec.get(0, ()))
                w = int(all(f.evaluate(a, dict(env), {}) == f.evaluate(b, dict(env), {}) for a, b in facts))
                if h and (r.lo != 0) != bool(w):
                    ob('path %s' % ''.join('01'[x] for *_, x in s.dec.get(0, ())), False, 'the result is %d instead of %d for %s' % (r.lo, w, ', '.join('%s = 0x%x' % (k, env[v]) for k, v in zip(('x', 'y', 'x2', 'y2'), s.pvar))), fn)
                    break
            else:
                lost = 'a decision that is none of the specified ones'
            used |= s.used
            if not paths.next():
                break
            continue
        want = 1 if all(x is True for x in st) else 0 if any(x is False for x in st) else None
        ob('path %s' % ''.join('01'[x] for *_, x in s.dec.get(0, ())), want is not None and (r.lo != 0) == bool(want), 'the result is %d although %s' % (r.lo, 'it is %s' % ('established' if want else 'refuted') if want is not None else 'not every fact was examined'), fn)
        used |= s.used
        for k, v in s.calls.items():
            calls[k] = calls.get(k, 0) + v
        if not paths.next():
            break
    return Res(s, used, calls, n, [('pred.' + fn, lost)] if lost else [])


def diffkey(f, x, y):
    """x == y as a fact about the difference, up to a constant"""
    z = f.add(x, y, -1)
    if not z:
        return ()
    c = pow(z[max(z)], -1, P)
    return frozenset(f.scale(z, c).items())


def points(fn, v):
    """operands of the predicates: on the curve, off it, equal, different in one coordinate or both"""
    rnd = random.Random(3)
    r = []
    for _ in range(6):
        A, B = randpoint(rnd), (rnd.randrange(P), rnd.randrange(P))
        if fn == 'isOnCurve':
            for x, y in (A, B, (A[0], B[1]), (-A[0] % P, A[1]), (A[1], A[0]), (0, 0), (0, 1), (0, P - 1), (1, 0), (SQM1, 0), (P - SQM1, 0), (A[0] * SQM1 % P, A[1] * SQM1 % P)):
                r.append({v[0]: x, v[1]: y})
        else:
            for p, q in ((A, A), (A, B), (A, (A[0], B[1])), (A, (B[0], A[1])), (A, (-A[0] % P, A[1])), (A, (A[0], -A[1] % P)), (A, (A[1], A[0])), (A, (-A[0] % P, -A[1] % P)),
                         (A, (A[0] * B[0] % P, A[1] * B[0] % P)), (A, (A[0] * SQM1 % P, A[1] * SQM1 % P)), (A, (B[0], (A[0] + A[1] - B[0]) % P)), (A, (B[0], (A[1] - A[0] + B[0]) % P)),
                         (A, (B[0], A[0] * A[1] * pow(B[0], -1, P) % P)), ((0, A[1]), (0, B[1])), ((A[0], 0), (B[0], 0)), ((0, 0), A), (A, (0, 0)), ((0, 0), (0, 0))):
                r.append({v[0]: p[0], v[1]: p[1], v[2]: q[0], v[3]: q[1]})
    return r


def decide(cfg, g, ob):
    k, x = g.split('.')
    if k == 'map':
        return domap(cfg, W1 if x == '1w' else W2, ob)
    if k == 'curve':
        return curve(cfg, x, ob)
    if k == 'field':
        return field(cfg, x, ob)
    return pred(cfg, x, ob)


def jobs():
    return [(c, 'h2c', g) for g in ('map.2w', 'map.1w', 'curve.x64', 'curve.avx2', 'field.1w', 'field.2w', 'pred.isOnCurve', 'pred.areEqual') for c in build.CONFIGS]
