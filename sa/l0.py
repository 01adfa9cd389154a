"""Field arithmetic: every dispatch slot against its algebraic specification (P08, P09)."""
import os, sys, traceback
import build, slots
from dom import V, Ptr, Vec, C, Poly, Dom, ZERO, pconst
from interp import Engine, Mem, Obj
from rep import REPS, Rep, P255, P448, wide, multi, mkin, mkout, limbs, inlimbs, val, modp
from report import Broken

A24 = {'Fp25519': 121666, 'Fp448': 39082}
# operand limb bounds (in units of the limb weight 2^w) for which products are specified
MULB = {'Fp25519': [(3.2, 3.2), (5.1, 2.1)], 'Fp448': [(2.1, 2.1), (3.2, 1.1), (1.1, 3.2)]}
SQRB = {'Fp25519': [3.2], 'Fp448': [2.1]}
# limbs of results that are carried
CARRIED = {'Fp25519': 1.1, 'Fp448': 1.1}
SUBB = 1.05        # subtrahends: carried elements
ADDB = 2.1


def bnd(rep, u):
    if rep.full:
        return None
    return [int(u * (1 << k)) for k in rep.widths]


class Slot:
    """One analysed call of one slot."""

    def __init__(self, ck, m, cfg, G, w, path, fn):
        self.ck, self.m, self.cfg, self.G, self.w, self.path, self.fn = ck, m, cfg, G, w, path, fn
        self.rep = REPS[G][w]
        self.p = self.rep.p
        self.reset()

    def reset(self):
        self.e = Engine(self.m, Dom(True))
        self.mem = Mem()
        self.d = self.e.dom

    def inp(self, name, u=None, rep=None):
        rep = rep or self.rep
        return mkin(self.e, self.mem, name, rep, None if u is not None or not rep.full else 'W', bounds=bnd(rep, u) if u is not None and not rep.full else ([(1 << 64) - 1] * len(rep.widths) if rep.full else rep.cls('L')))

    def out(self, name, rep=None, size=None):
        return mkout(self.e, self.mem, name, size or (rep or self.rep).size)

    def dup(self, name, p):
        """a second buffer holding the same words"""
        q = self.out(name + "'", size=self.rep.size)
        src, dst = self.mem.objs[name], self.mem.w(name + "'")
        for off in sorted(self.rep.at):
            self.e.wr(dst, off, 8, self.e.rd(src, off, 8))
        return q

    def run(self, *args):
        self.ret, self.mem = self.e.call(self.fn, list(args), self.mem)
        if self.mem is None:
            raise Broken('%s does not return' % self.fn)
        return self.ret

    def iv(self, name, i=0, rep=None):
        rep = rep or self.rep
        return val(rep, inlimbs(self.e, name, rep, i), i)

    def ov(self, name, i=0, rep=None):
        rep = rep or self.rep
        return val(rep, limbs(self.e, self.mem, name, rep, i), i)

    def cong(self, what, got, want, exact=False):
        if got is None or want is None:
            return self.fail(what, 'no relation between result and operands is known')
        df = got.add(want, -1)
        if not exact:
            df = modp(df, self.p)
        if df.d:
            return self.fail(what, 'result differs from specification by %s' % self.d.show(df, 6))
        return self.good(what)

    def oid(self, what):
        return '%s.%s.%s:%s' % (self.cfg, self.G, self.path.lstrip('_'), what)

    def where(self):
        f = self.m.funcs.get(self.fn)
        return '%s (%s)' % (self.fn, getattr(f, 'loc', '') or 'slot %s.%s' % (self.G, self.path))

    def fail(self, what, why):
        self.ck.ob(self.oid(what), False, why, self.where())
        return False

    def good(self, what):
        self.ck.ob(self.oid(what), True, '', self.where())
        return True

    def bound(self, what, name, i, u):
        """limbs of element i of `name` at most u * 2^w"""
        if self.rep.full:
            return True
        for l, k in zip(limbs(self.e, self.mem, name, self.rep, i), self.rep.widths):
            if l.hi > u * (1 << k) or l.lo < 0:
                return self.fail(what, 'a result limb can reach %.3f * 2^%d (limit %.2f)' % (l.hi / 2 ** k, k, u))
        return self.good(what)

    def events(self, what):
        for x in self.e.events.values():
            self.fail(what + '-fault', repr(x))


def lanes(ret, n):
    """per-element results of a vector-returning slot"""
    if isinstance(ret, Vec):
        d = 256 // n // ret.ew
        return ret
    return ret


def slotlist(m, G):
    t = slots.field_table(m, G)
    if not any(t.values()):
        raise Broken('dispatch table of %s is empty' % G)
    return t


def check_slot(ck, m, cfg, G, w, path, fn, only=None):
    op = path.split('.')[-1]
    h = HANDLERS.get(op)
    if h is None:
        return
    s = Slot(ck, m, cfg, G, w, path, fn)
    try:
        h(s)
    except Broken:
        raise
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        s.ck.lost.append('%s.%s %s: the analysis cannot follow this implementation: %s: %s (%s:%d)' % (cfg, path, fn, type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno))
    ck.count('calls_analysed')


HANDLERS = {}


def handler(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


def binary(s, ubs, spec, obound, tag=''):
    n = s.rep.n
    for ua, ub in ubs:
        for alias in ('', 'c=a', 'c=b'):
            s.reset()
            t = '%s%s%s' % (tag, '' if s.rep.full else '[%s,%s]' % (ua, ub), ' ' + alias if alias else '')
            a, b = s.inp('a', ua), s.inp('b', ub)
            c = a if alias == 'c=a' else b if alias == 'c=b' else s.out('c')
            o = 'a' if alias == 'c=a' else 'b' if alias == 'c=b' else 'c'
            s.run(c, a, b)
            s.events('value' + t)
            for i in range(n):
                s.cong('value%s#%d' % (t, i), s.ov(o, i), spec(s.iv('a', i), s.iv('b', i)))
                if obound:
                    s.bound('limbs%s#%d' % (t, i), o, i, obound(ua, ub))


@handler('add')
def h_add(s):
    binary(s, [(SUBB, SUBB), (2.1, 2.1)], lambda a, b: a.add(b), lambda x, y: x + y)


@handler('sub')
def h_sub(s):
    binary(s, [(SUBB, SUBB)], lambda a, b: a.add(b, -1), lambda x, y: 5.1)


@handler('mul')
def h_mul(s):
    binary(s, MULB[s.G] if not s.rep.full else [(1, 1)], lambda a, b: a.mul(b), lambda x, y: CARRIED[s.G])


def unary(s, us, spec, ob):
    for u in us:
        s.reset()
        t = '' if s.rep.full else '[%s]' % u
        a = s.inp('a', u)
        s.run(a)
        s.events('value' + t)
        for i in range(s.rep.n):
            s.cong('value%s#%d' % (t, i), s.ov('a', i), spec(s.iv('a', i)))
            if ob:
                s.bound('limbs%s#%d' % (t, i), 'a', i, ob)


@handler('sqr')
def h_sqr(s):
    unary(s, SQRB[s.G] if not s.rep.full else [1], lambda a: a.mul(a), CARRIED[s.G] if (s.G, s.w) != ('Fp448', '_1w_red') else 3.1)


@handler('neg')
def h_neg(s):
    unary(s, [SUBB], lambda a: a.scale(-1), 5.1)


@handler('compress')
def h_cmp(s):
    unary(s, [1 << 31], lambda a: a, CARRIED[s.G])


@handler('compressfast')
def h_cmpf(s):
    unary(s, [1 << 27], lambda a: a, None)


@handler('compress2', 'new_compressfast2')
def h_c2(s):
    s.reset()
    u = 1 << 31 if 'fast' not in s.path else 1 << 27
    a, b = s.inp('a', u), s.inp('b', u)
    s.run(a, b)
    s.events('value')
    for i in range(s.rep.n):
        for x in 'ab':
            s.cong('value.%s#%d' % (x, i), s.ov(x, i), s.iv(x, i))
            if 'fast' not in s.path:
                s.bound('limbs.%s#%d' % (x, i), x, i, CARRIED[s.G])


@handler('addsub', 'addsublar')
def h_addsub(s):
    s.reset()
    big = 'lar' in s.path
    u = SUBB if not big else 1 << 33
    a, b = s.inp('a', u), s.inp('b', u)
    if s.w == '_4w_red' and not big:
        c, d = s.out('c'), s.out('d')
        s.run(c, d, a, b)
        x, y = 'c', 'd'
    else:
        s.run(a, b)
        x, y = 'a', 'b'
    s.events('value')
    for i in range(s.rep.n):
        A, B = s.iv('a', i), s.iv('b', i)
        s.cong('sum#%d' % i, s.ov(x, i), A.add(B))
        s.cong('difference#%d' % i, s.ov(y, i), A.add(B, -1))


@handler('ngz')
def h_ngz(s):
    s.reset()
    a, c = s.inp('a', SUBB), s.out('c')
    s.run(c, a)
    s.events('value')
    # (source element, sign) of each result element
    spec = {2: [(0, -1), (1, 1)], 4: [(1, 1), (0, 1), (2, -1), (3, 1)]}[s.rep.n]
    for i, (j, sg) in enumerate(spec):
        s.cong('value#%d' % i, s.ov('c', i), s.iv('a', j).scale(sg))


@handler('prime')
def h_prime(s):
    s.reset()
    c = s.out('c')
    s.run(c)
    for i in range(s.rep.n):
        s.cong('value#%d' % i, s.ov('c', i), pconst(s.p), True)


@handler('zero')
def h_zero(s):
    s.reset()
    c = s.out('c')
    s.run(c)
    for i in range(s.rep.n):
        s.cong('value#%d' % i, s.ov('c', i), ZERO, True)


@handler('copy')
def h_copy(s):
    s.reset()
    c, a = s.out('c'), s.inp('a', 1 << 30)
    s.run(c, a)
    for i in range(s.rep.n):
        s.cong('value#%d' % i, s.ov('c', i), s.iv('a', i), True)


def vecbit(s, b):
    return Vec(64, [C(b), C(0), C(b), C(0)]) if isinstance(b, int) else b


@handler('cmv')
def h_cmv(s):
    for bit in (0, 1):
        for alias in ('', 'c=a', 'c=b'):
            s.reset()
            a, b = s.inp('a', 3.2), s.inp('b', 3.2)
            c = a if alias == 'c=a' else b if alias == 'c=b' else s.out('c')
            o = 'a' if alias == 'c=a' else 'b' if alias == 'c=b' else 'c'
            s.run(vecbit(s, bit) if s.w == '_2w_red' else C(bit), c, a, b)
            s.events('select')
            for i in range(s.rep.n):
                s.cong('select%d%s#%d' % (bit, ' ' + alias if alias else '', i), s.ov(o, i), s.iv('ab'[bit], i), True)
    if s.w == '_2w_red':
        for bits in ((0, 1), (1, 0)):
            s.reset()
            a, b, c = s.inp('a', 3.2), s.inp('b', 3.2), s.out('c')
            s.run(Vec(64, [C(bits[0]), C(0), C(bits[1]), C(0)]), c, a, b)
            for i in range(2):
                s.cong('select%d%d#%d' % (bits + (i,)), s.ov('c', i), s.iv('ab'[bits[i]], i), True)


def words(s, name, n, base=0):
    return [s.d.nu(s.e.rd(s.mem.objs[name], base + 8 * j, 8), 64) for j in range(n)]


def wval(ws):
    v = ZERO
    for j, x in enumerate(ws):
        if x.p is None:
            return None
        v = v.add(x.p.scale(1 << (64 * j)))
    return v


def serhook(s, full, calls):
    """Replace the fullradix serialisation (specified and checked on its own) by its contract."""
    nb = s.rep.nbytes

    def hook(e, mem, args, ins):
        ob, off = args[0].one()
        ab, aoff = args[1].one()
        if ob is None or ab is None or not off.isc() or not aoff.isc():
            raise Broken('serialisation at an unknown address')
        v = ZERO
        for j in range(nb // 8):
            x = e.dom.nu(e.rd(mem.objs[ab], aoff.lo + 8 * j, 8), 64)
            v = None if v is None or x.p is None else v.add(x.p.scale(1 << (64 * j)))
        o = mem.w(ob)
        ws = [e.dom.fresh(0, (1 << 64) - 1, 'ser%d.%d' % (len(calls), j)) for j in range(nb // 8)]
        for j, x in enumerate(ws):
            e.wr(o, off.lo + 8 * j, 8, x)
        calls.append((ob, off.lo, v, ws))
        return None
    s.e.callhook[full] = hook


@handler('ser')
def h_ser(s):
    nb = s.rep.nbytes
    full = slots.field_table(s.m, s.G)['_1w_full.arith.misc.ser']
    n = s.rep.n
    for u in ([3.2] if s.G == 'Fp25519' else [5.1]) if not s.rep.full else [1]:
        s.reset()
        calls = []
        if s.fn != full:
            serhook(s, full, calls)
        a, c = s.inp('a', u), s.out('c', size=nb * n)
        s.run(c, a)
        s.events('bytes')
        for i in range(n):
            A = s.iv('a', i)
            ws = words(s, 'c', nb // 8, nb * i)
            hit = [k for k in calls if [x.p for x in ws] == [x.p for x in k[3]]]
            if hit:
                s.cong('value#%d' % i, hit[0][2], A)
                s.good('canonical#%d' % i)
            else:
                v = wval(ws)
                s.cong('value#%d' % i, v, A)
                if v is not None and s.d.range_cases(v, 0, s.p - 1):
                    s.good('canonical#%d' % i)
                else:
                    s.fail('canonical#%d' % i, 'the bytes written are not shown to be below the prime')


@handler('unser')
def h_unser(s):
    nb = s.rep.nbytes
    n = s.rep.n
    r = Rep('bytes', s.p, n, nb * n, [[(nb * e + 8 * i, 64 * i) for i in range(nb // 8)] for e in range(n)], [64] * (nb // 8), True)
    # words are sliced into limbs: read them as sums of single bits, so that any slicing is exact
    for mode in ((False,) if s.rep.full else ('derived', True)):
        s.reset()
        s.e.bitloads = mode
        c = s.out('c')
        b = s.inp('b', rep=r, u=None)
        s.run(c, b)
        zero = topzero(s, nb // 8)
        df = []
        for i in range(n):
            x = s.ov('c', i)
            df.append(None if x is None else modp(drop(s.d.unbit(x), zero).add(s.iv('b', i, r), -1), s.p))
        if all(x is not None and not x.d for x in df):
            break
    s.events('value')
    for i in range(n):
        s.cong('value#%d' % i, df[i], ZERO)
        s.bound('limbs#%d' % i, 'c', i, 1.0)


def drop(p, atoms):
    return Poly({m: c for m, c in p.d.items() if not (len(m) == 1 and m[0] in atoms)})


def topzero(s, nw):
    """Bits of stored multi-word values that are proved zero: the value is below the prime."""
    zero = set()
    by = {}
    for (o, off), p in s.e.bitaddr.items():
        by.setdefault(o, {})[off] = p
    for o, ws in by.items():
        for base in sorted(ws):
            ps = [ws.get(base + 8 * k) for k in range(nw)]
            if None in ps:
                continue
            v = ZERO
            for k, x in enumerate(ps):
                v = v.add(x.scale(1 << (64 * k)))
            top = s.d.bitnames.get((ps[-1], 64))
            if top is None or len(top.d) < 64 or not s.d.range_cases(v, 0, s.p - 1):
                continue
            for m, c in top.d.items():
                if c << (64 * (nw - 1)) > s.p:
                    zero.add(m[0])
    return zero


@handler('sgn')
def h_sgn(s):
    s.reset()
    ser = slots.field_table(s.m, s.G)[s.w + '.arith.misc.ser']
    nb = s.rep.nbytes
    a = s.inp('a', 3.2)
    c = s.out('c', size=nb * s.rep.n)
    # the specification: bit 0 of the canonical bytes, computed from the same operand beforehand
    # (the function is allowed to reduce its operand in place)
    _, s.mem = s.e.call(ser, [c, s.dup('a', a)], s.mem)
    r = s.run(a)
    s.events('sign')
    rs = [r] if s.rep.n == 1 else [s.d.as_ew(r, 64).e[2 * i] for i in range(2)]
    for i in range(s.rep.n):
        w = words(s, 'c', 1, nb * i)[0]
        b = s.d.band(w, C(1), 64)
        x = s.d.nu(rs[i], 32 if s.rep.n == 1 else 64)
        s.cong('bit0#%d' % i, x.p, b.p, True)


def pieces(s, name, base, nb, g):
    o = s.mem.objs[name]
    return [s.d.nu(s.e.rd(o, base + g * j, g), 8 * g) for j in range(nb // g)]


@handler('cmp')
def h_cmpf2(s):
    s.reset()
    n = s.rep.n
    nb = s.rep.nbytes
    ser = slots.field_table(s.m, s.G)[s.w + '.arith.misc.ser']
    a, b = s.inp('a', 3.2), s.inp('b', 3.2)
    ca, cb = s.out('ca', size=nb * n), s.out('cb', size=nb * n)
    _, s.mem = s.e.call(ser, [ca, s.dup('a', a)], s.mem)
    _, s.mem = s.e.call(ser, [cb, s.dup('b', b)], s.mem)
    r = s.run(a, b)
    s.events('equal')
    if n == 1:
        rs = [s.d.nu(r, 32)]
    else:
        v = s.d.as_ew(r, 64)
        rs = [s.d.nu(v.e[(4 // n) * i], 64) for i in range(n)]
    for i in range(n):
        got = s.d.orset(rs[i].p) if rs[i].p is not None else frozenset()
        ok = False
        for g in (1, 2, 4, 8):
            A, B = pieces(s, 'ca', nb * i, nb, g), pieces(s, 'cb', nb * i, nb, g)
            want = frozenset(s.d.bxor(x, y, 8 * g).p for x, y in zip(A, B))
            if got == want and len(want) == nb // g:
                ok = True
                break
        if ok:
            s.good('equal#%d' % i)
        else:
            s.fail('equal#%d' % i, 'the result is not shown to be zero exactly when the canonical bytes agree')


def ints(s, k, sq, tag):
    """integer products of k elements"""
    if s.rep.full:
        ra, rc = multi(s.rep, k), wide(s.rep, k)
        s.reset()
        a = s.inp('a', rep=ra)
        c = s.out('c', rep=rc)
        if sq:
            s.run(c, a)
        else:
            b = s.inp('b', rep=ra)
            s.run(c, a, b)
        s.events('product')
        for i in range(k):
            A = s.iv('a', i, ra)
            s.cong('product#%d' % i, s.ov('c', i, rc), A.mul(A) if sq else A.mul(s.iv('b', i, ra)), True)
        return
    for ub in (SQRB[s.G] if sq else MULB[s.G]):
        s.reset()
        if sq:
            a = s.inp('a', ub)
            s.run(a)
            s.events('product')
            for i in range(s.rep.n):
                A = s.iv('a', i)
                s.cong('product[%s]#%d' % (ub, i), s.ov('a', i), A.mul(A))
        else:
            a, b, c = s.inp('a', ub[0]), s.inp('b', ub[1]), s.out('c')
            s.run(c, a, b)
            s.events('product')
            for i in range(s.rep.n):
                s.cong('product[%s,%s]#%d' % (ub + (i,)), s.ov('c', i), s.iv('a', i).mul(s.iv('b', i)))


@handler('intmul')
def h_im(s):
    ints(s, 1, False, '')


@handler('intmul2')
def h_im2(s):
    ints(s, 2, False, '')


@handler('intsqr')
def h_is(s):
    ints(s, 1, True, '')


@handler('intsqr2')
def h_is2(s):
    ints(s, 2, True, '')


@handler('reduce')
def h_red(s, k=1):
    s.reset()
    ra, rc = wide(s.rep, k), multi(s.rep, k)
    a, c = s.inp('a', rep=ra), s.out('c', rep=rc)
    s.run(c, a)
    s.events('value')
    for i in range(k):
        s.cong('value#%d' % i, s.ov('c', i, rc), s.iv('a', i, ra))


@handler('reduce2')
def h_red2(s):
    h_red(s, 2)


@handler('mula24')
def h_a24(s):
    for alias in ('', 'c=a'):
        s.reset()
        a = s.inp('a')
        c, o = (a, 'a') if alias else (s.out('c'), 'c')
        s.run(c, a)
        s.events('value')
        s.cong('value' + (' ' + alias if alias else ''), s.ov(o), s.iv('a').scale(A24[s.G]))


@handler('inter')
def h_inter(s):
    s.reset()
    one = REPS[s.G]['_1w_red']
    x, y = s.inp('x', 1 << 30, rep=one), s.inp('y', 1 << 30, rep=one)
    c = s.out('c')
    s.run(c, x, y)
    s.events('value')
    for i, nm in enumerate('xy'):
        s.cong('value#%d' % i, s.ov('c', i), s.iv(nm, 0, one), True)


@handler('deinter')
def h_deinter(s):
    s.reset()
    one = REPS[s.G]['_1w_red']
    x, y = s.out('x', rep=one), s.out('y', rep=one)
    a = s.inp('a', 1 << 30)
    s.run(x, y, a)
    s.events('value')
    for i, nm in enumerate('xy'):
        s.cong('value#%d' % i, s.ov(nm, 0, one), s.iv('a', i), True)


def work(args):
    cfg, G, items = args

    class K:
        def __init__(self):
            self.obs, self.cov, self.lost = [], {}, []

        def ob(self, *a):
            self.obs.append(a)

        def count(self, k, n=1):
            self.cov[k] = self.cov.get(k, 0) + n
    ck = K()
    m = build.module(cfg)
    for w, path, fn in items:
        check_slot(ck, m, cfg, G, w, path, fn)
    return ck.obs, ck.cov, ck.lost


def run(ck, G, cfgs=('adx', 'bmi2', 'base')):
    import multiprocessing as mp
    jobs = []
    nslots = set()
    for cfg in cfgs:
        t = slotlist(build.module(cfg), G)
        slow, rest = [], []
        for path, fn in t.items():
            if fn is None or path.split('.')[-1] not in HANDLERS:
                continue
            nslots.add(path)
            w = path.split('.')[0]
            it = (w, path, fn)
            if w == '_1w_full' and path.split('.')[-1] in ('mul', 'sqr'):
                slow.append(it)
            else:
                rest.append(it)
        for it in slow:
            jobs.append((cfg, G, [it]))
        k = 4
        for j in range(k):
            jobs.append((cfg, G, rest[j::k]))
    if len(nslots) < 60:
        raise Broken('%s: only %d populated arithmetic slots found' % (G, len(nslots)))
    with mp.Pool(8) as pool:
        for obs, cov, lo in pool.imap(work, jobs):
            ck.lost += lo
            for o in obs:
                ck.ob(*o)
            for k, v in cov.items():
                ck.count(k, v)
    ck.cov['dispatch_slots'] = len(nslots)
    ck.cov['cpu_configurations'] = list(cfgs)
