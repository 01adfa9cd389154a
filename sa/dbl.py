"""Double-base multiplication of verification: enc([s]B + [h]A).

The recoding of a scalar into signed digits is shown to keep, in every iteration, the value of what is
left plus what has been written; the main loop is shown to take any point Q to 2Q + dr B + dh A for
every pair of digits the recoding can write.  Both arguments are by induction over the iterations of
the loop, at its head; the state there is replaced by unknowns that satisfy the hypothesis."""
import sys, time, random
import build
from dom import V, Ptr, Vec, C, Poly, pconst, Dom
from interp import Mem, Obj, Engine
from fieldsem import Lost, Wrong
from rep import REPS
from tdom import TDom, TEngine, Var
import group
from group import GSem, Group, Points, Run, padd, pmul, prop, L25, L44, P25, P44, ED25, ED44, TW44, B25, B44
from ir import loc_str

FUN = {'Ed25519': ('double_point_mult_4w_ed25519', 'wnaf_256bits', 'Fp25519', 32, 253),
       'Ed448': ('double_point_mult_4w_ed448', 'wnaf_448bits', 'Fp448', 57, 446)}
WIDTHS = (5, 7)
M64 = (1 << 64) - 1


class Done(Exception):
    pass


# ------------------------------------------------------------------ recoding
class KEngine(Engine):
    """Engine that records what is written to one buffer."""
    K = None
    maxst = 1 << 30

    def store(self, mem, p, v, size, ins):
        if isinstance(p, Ptr) and self.K in p.b:
            if len(p.b) != 1:
                raise Lost('a store that may or may not reach the digits')
            self.kst.append((p.b[self.K], size, v, ins))
            if len(self.kst) > self.maxst:
                raise Done
            return
        return Engine.store(self, mem, p, v, size, ins)

    def load(self, mem, p, size, ins):
        if isinstance(p, Ptr) and self.K in p.b:
            raise Lost('the recoding reads digits back')
        return Engine.load(self, mem, p, size, ins)


class KDom(Dom):
    """constant polynomials are constants"""
    def bits(self, *a):
        return self.fold(Dom.bits(self, *a))

    def band(self, *a):
        return self.fold(Dom.band(self, *a))

    def bor(self, a, b, w):
        r = Dom.bor(self, a, b, w)
        if r.p is not None and len(r.p.d) == 1 and not r.isc():
            (m, c), = r.p.d.items()
            if len(m) == 1 and c == 1:
                self.__dict__.setdefault('ors', {}).setdefault(m[0], (a, b))
        return r

    def fold(self, r):
        if r.p is not None and not r.isc() and not r.u and r.p.isconst() and r.lo <= r.p.const() <= r.hi:
            return self.tag(C(r.p.const()), r.t, False)
        return r


class Recode:
    """One path of the recoding with the low bits of the remaining scalar fixed."""

    def __init__(self, cfg, fn, w, nbytes, nbits):
        self.m, self.fn, self.w, self.nbytes, self.nbits = build.module(cfg), fn, w, nbytes, nbits

    def start(self, script, oracle=True):
        self.d = KDom(True, maxterms=4000)
        self.e = KEngine(self.m, self.d, max_undecided=1)
        self.e.K = 'digits'
        self.e.kst = []
        self.e.budget = 400000
        self.mem = Mem()
        self.mem.add(Obj('digits', 4096, 'param', 'undef'))
        self.script, self.pos = script, 0
        self.facts = []
        if oracle:
            self.e.oracle = self.oracle
            self.e.loop_hook = self.hook

    def oracle(self, c, t):
        if self.state is None:
            raise Lost('the recoding branches on the scalar before its loop')
        if self.pos == len(self.script):
            self.script.append([0, c, t])
        k = self.script[self.pos][0]
        self.pos += 1
        self.facts.append((c, k == 0))
        return k == 0

    def param(self):
        o = Obj('scalar', self.nbytes, 'param', 'input')
        self.mem.add(o)
        self.by = []
        nw = (self.nbits + 64) // 64
        for i in range(self.nbytes):
            n = max(0, min(8, self.nbits + 1 - 8 * i))
            v = self.d.fresh(0, (1 << n) - 1, 'byte%d' % i) if n else C(0)
            o.cells[i] = (1, v)
            self.by.append(v)
        return Ptr({'scalar': C(0)})

    def word(self, i):
        p = pconst(0)
        for j in range(8):
            if 8 * i + j < self.nbytes:
                p = p.add(self.by[8 * i + j].p.scale(1 << (8 * j)))
        return p

    def run(self, low, script):
        """one path; returns the obligations' failures"""
        self.start(script)
        self.low = low
        self.state = None
        self.bad = []
        p = self.param()
        try:
            ret, mem = self.e.call(self.fn, [Ptr({'digits': C(0)}), p, C(self.w)], self.mem)
        except Done:
            return
        if self.state is None:
            raise Lost('%s has no loop over the scalar' % self.fn)
        # the loop was left: nothing may be left of the scalar
        self.exitpath(ret)

    # ---- at the loop head
    def hook(self, fr, head, n, ent):
        if fr.f.name != self.fn:
            return
        mem, ov, phis = ent
        if self.state is None:
            if n:
                return
            self.enter(fr, head, mem, phis)
        elif self.state[0] == head:
            if n == 1:
                self.second(mem, phis)
                raise Done

    def places(self, mem, phis):
        """machine words of the state at the loop head"""
        for k, v in phis.items():
            yield ('phi', k), v
        for o, ob in mem.objs.items():
            if ob.kind in ('param', 'global', 'const') or o in ('digits', 'scalar') or not isinstance(ob.size, int):
                continue
            for off in range(0, ob.size - 7, 8):
                if ob.cells:
                    v = self.e.rd(ob, off, 8)
                    yield ('mem', o, off), v

    def enter(self, fr, head, mem, phis):
        nw = (self.nbits + 64) // 64
        want = {self.word(i): i for i in range(nw)}
        at = {}
        rest = {}
        idx = None
        for pl, v in self.places(mem, phis):
            p = self.d.nu(v, 64).p if isinstance(v, V) and not v.u else None
            if p is not None and not p.isconst() and p in want:
                at.setdefault(want[p], []).append(pl)
            else:
                rest[pl] = v
        if set(at) != set(range(nw)):
            return
        if any(len(x) != 1 for x in at.values()):
            raise Lost('the scalar is held twice')
        self.idx = []
        I = self.d.fresh(0, self.nbits + 1, 'i')
        for pl, v in list(rest.items()):
            if pl[0] != 'phi':
                continue
            if isinstance(v, Ptr) and list(v.b) == ['digits'] and v.b['digits'].isc() and v.b['digits'].lo == 0:
                phis[pl[1]] = Ptr({'digits': I})
                self.idx.append(pl)
            elif isinstance(v, V) and v.isc() and v.lo == 0:
                # a counter of digits: 0 when the loop is entered
                phis[pl[1]] = I
                self.idx.append(pl)
        # fresh words; the low bits are the case at hand
        self.W = []
        sh = self.w
        for i in range(nw):
            hi = (1 << min(64, self.nbits + 1 - 64 * i)) - 1
            if i == 0:
                x = self.d.fresh(0, hi >> sh, 'w0')
                # the value is that of its bits: nothing else is known of it
                v = V(self.low, (hi >> sh << sh) + self.low, x.p.scale(1 << sh).add(pconst(self.low)), (hi >> sh << sh) | self.low)
            else:
                v = self.d.fresh(0, hi, 'w%d' % i)
            self.W.append(v)
            pl = at[i][0]
            if pl[0] == 'phi':
                phis[pl[1]] = v
            else:
                self.e.wr(mem.w(pl[1]), pl[2], 8, v)
        if self.e.kst:
            raise Lost('digits are written before the loop')
        self.I = I
        self.state = (head, at, rest)
        self.fr = fr
        self.mem0 = mem

    def fail(self, why):
        self.bad.append(why)

    def second(self, mem, phis):
        head, at, rest = self.state
        d = self.d
        new = dict(self.places(mem, phis))
        dig = C(0)
        if len(self.e.kst) > 1:
            return self.fail('more than one digit written in an iteration')
        if self.e.kst:
            off, size, v, ins = self.e.kst[0]
            if size != 1 or off.p is None or self.I.p is None or d.ns(off, 64).p != self.I.p:
                return self.fail('a digit is written to another place than that of its weight')
            v = d.ns(v, 8)
            if not v.isc():
                raise Lost('the digit is not determined by the low bits of the scalar')
            dig = v
        k = dig.lo
        if self.low % 2 == 0 and k or k and (k % 2 == 0 or abs(k) >= 1 << (self.w - 1)):
            return self.fail('digit %d for low bits %d' % (k, self.low))
        if self.low % 2 and (k - self.low) % (1 << self.w):
            return self.fail('digit %d for low bits %d' % (k, self.low))
        lhs = pconst(k)
        for i, pls in at.items():
            v = new.get(pls[0])
            if not isinstance(v, V) or v.u:
                raise Lost('a word of the scalar is lost')
            v = d.nu(v, 64)
            if v.p is None:
                raise Lost('a word of the scalar is not followed')
            lhs = lhs.add(v.p.scale(2 << (64 * i)))
        rhs = pconst(0)
        for i, v in enumerate(self.W):
            rhs = rhs.add(v.p.scale(1 << (64 * i)))
        if lhs != rhs:
            return self.fail('the digit %d and what is left of the scalar do not add up to the scalar (low bits %d)' % (k, self.low))
        for pl in self.idx:
            v = new.get(pl)
            if isinstance(v, Ptr):
                v = v.b.get('digits')
            if not isinstance(v, V) or v.p is None or d.ns(v, 64).p != self.I.p.add(pconst(1)):
                return self.fail('the digit index does not advance by one')
        for pl, v in rest.items():
            if pl in self.idx:
                continue
            x = new.get(pl)
            if pl[0] == 'phi' and not (isinstance(x, V) and isinstance(v, V) and x.p is not None and x.p == v.p) and not (isinstance(x, Ptr) and isinstance(v, Ptr) and x.b.keys() == v.b.keys() and all(x.b[k].isc() and v.b[k].isc() and x.b[k].lo == v.b[k].lo for k in x.b)):
                raise Lost('more state than the scalar and the index')
            if pl[0] == 'mem' and isinstance(v, V) and not v.u and not (isinstance(x, V) and x.p is not None and v.p is not None and x.p == v.p):
                raise Lost('more state than the scalar and the index')

    def exitpath(self, ret):
        d = self.d
        if self.e.kst:
            return self.fail('a digit is written on the way out of the loop')
        if not isinstance(ret, V) or ret.p is None or d.ns(ret, 32).p != self.I.p:
            return self.fail('the number of digits is not returned')
        # every word is zero on this path
        if self.low:
            return self.fail('the loop ends although something is left of the scalar')
        zero = set()
        for c, truth in self.facts:
            for i, v in enumerate(self.W):
                if self.zerofact(c, truth, v):
                    zero.add(i)
        if len(zero) != len(self.W):
            # unless the decisions contradict each other or the words as such
            return self.fail('the loop ends although word %s of the scalar may be non-zero' % sorted(set(range(len(self.W))) - zero))

    def zerofact(self, c, truth, v):
        """does c having this truth value mean v = 0?"""
        ed = self.e.eqs.get(frozenset(c.p.d.items())) if c.p is not None else None
        if ed is None:
            return False
        o, x, y = ed
        if (o == 'eq') != truth and o in ('eq', 'ne'):
            return False
        q = x.add(y, -1)
        # a sum of non-negative terms that vanishes
        if q.const():
            return False
        s = {c > 0 for m, c in q.d.items()}
        if len(s) != 1:
            return False
        vs = [m for m in v.p.d if m]
        # the parts of a bitwise or vanish with it
        st = list(q.d)
        q = Poly(dict(q.d))
        while st:
            m = st.pop()
            for y in getattr(self.d, 'ors', {}).get(m[0], ()) if len(m) == 1 else ():
                if y.p is not None and not y.p.const() and all(c > 0 for c in y.p.d.values()):
                    for n in y.p.d:
                        if n not in q.d:
                            q.d[n] = 1
                            st.append(n)
        return all(m in q.d for m in vs) and all(self.d.atoms[a].lo >= 0 for m in q.d for a in m)


def eqtrack(E):
    """remember equations behind undecided comparisons"""
    def cmp(self, pred, a, b, w):
        r = Engine.cmp(self, pred, a, b, w)
        if isinstance(r, V) and not r.isc() and r.p is not None and isinstance(a, V) and isinstance(b, V):
            x, y = self.dom.nu(a, w), self.dom.nu(b, w)
            if x.p is not None and y.p is not None:
                o = pred if pred in ('eq', 'ne') else None
                if pred == 'ugt' and y.isc() and y.lo == 0 or pred == 'uge' and y.isc() and y.lo == 1:
                    o, y = 'ne', C(0)
                elif pred == 'ult' and y.isc() and y.lo == 1 or pred == 'ule' and y.isc() and y.lo == 0:
                    o, y = 'eq', C(0)
                elif pred == 'ult' and x.isc() and x.lo == 0 or pred == 'ule' and x.isc() and x.lo == 1:
                    o, x = 'ne', C(0)
                elif pred == 'ugt' and x.isc() and x.lo == 1 or pred == 'uge' and x.isc() and x.lo == 0:
                    o, x = 'eq', C(0)
                if o:
                    k = frozenset(r.p.d.items())
                    self.eqs.setdefault(k, (o, x.p, y.p))
                    self.eqs.setdefault(frozenset(pconst(1).add(r.p, -1).d.items()), ('ne' if o == 'eq' else 'eq', x.p, y.p))
        return r
    E.cmp = cmp
    E.eqs = property(lambda s: s.__dict__.setdefault('_eqs', {}))


eqtrack(KEngine)


def recode_concrete(cfg, fn, w, nbytes, k):
    """digits for one scalar (all values constant)"""
    R = Recode(cfg, fn, w, nbytes, 0)
    R.start([], oracle=False)
    R.e.budget = 4000000
    R.e.oracle = lambda c, t: (_ for _ in ()).throw(Lost('undecided branch on constants'))
    o = Obj('scalar', nbytes, 'param', 'input')
    R.mem.add(o)
    for i in range(nbytes):
        o.cells[i] = (1, C((k >> (8 * i)) & 255))
    R.e.maxst = 8 * nbytes + 8
    try:
        ret, mem = R.e.call(fn, [Ptr({'digits': C(0)}), Ptr({'scalar': C(0)}), C(w)], R.mem)
    except Done:
        ret = C(R.e.maxst)
    D = {}
    for off, size, v, ins in R.e.kst:
        v = R.d.ns(v, 8)
        if size != 1 or not off.isc() or not v.isc():
            raise Lost('digits are not followed')
        D[off.lo] = v.lo
    if not ret.isc():
        raise Lost('number of digits')
    return D, R.d.ns(ret, 32).lo


def samples(n, rnd):
    M = (1 << n) - 1
    ks = [0, 1, 2, 3, M, M - 1, 1 << (n - 1)]
    for j in (63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 320, 384):
        for t in range(0, 12, 3):
            ks += [((1 << j) - 1) << t & M, ((1 << j) + 1) << t & M]
    ks += [rnd.getrandbits(n) for _ in range(12)]
    ks += [M ^ rnd.getrandbits(9) << 60 for _ in range(4)]
    return list(dict.fromkeys(k & M for k in ks))


def recoding(cfg, name, w):
    """(problem or '', witness or '', paths)"""
    fn, rec, G, nbytes, nbits = FUN[name]
    why = ''
    n = 0
    try:
        R = Recode(cfg, rec, w, nbytes, nbits)
        for low in range(1 << w):
            script = []
            while True:
                n += 1
                if n > 20000:
                    raise Lost('too many paths')
                R.run(low, script)
                if R.bad:
                    raise Lost(R.bad[0])
                while script and script[-1][0] == 1:
                    script.pop()
                if not script:
                    break
                script[-1][0] = 1
                del script[len(script):]
    except Lost as ex:
        why = str(ex)
    if not why:
        return '', '', n
    rnd = random.Random(7)
    bound = 1 << (w - 1)
    for k in samples(nbits, rnd):
        try:
            D, l = recode_concrete(cfg, rec, w, nbytes, k)
        except Lost as ex:
            return '%s (%s)' % (why, ex), '', n
        t = sum(v << i for i, v in D.items() if i >= 0)
        bad = [v for i, v in D.items() if v and (v % 2 == 0 or abs(v) >= bound) or not 0 <= i < max(l, 1)]
        if t != k or bad or l > nbits + 1:
            return why, '%s; for the scalar 0x%x the digits %s' % (why, k, 'add up to 0x%x' % t if t != k else 'include %s' % bad[:3] if bad else 'number %d' % l), n
    return why, '', n


# ------------------------------------------------------------------ the main loop
class DEngine(TEngine):
    run = None

    def load(self, mem, p, size, ins):
        r = self.run
        if r is not None and isinstance(p, Ptr) and len(p.b) == 1:
            (o, off), = p.b.items()
            if o in r.K:
                return r.digit(o, off, size, ins)
            if not off.isc():
                v = r.table(mem, o, off, size)
                if v is not None:
                    return v
        return TEngine.load(self, mem, p, size, ins)

    def store(self, mem, p, v, size, ins):
        r = self.run
        if r is not None and isinstance(p, Ptr) and any(o in r.K for o in p.b):
            raise Lost('the digits are written after the recoding')
        return TEngine.store(self, mem, p, v, size, ins)


class DSem(GSem):
    run = None

    def loop_hook(self, fr, head, n, ent):
        if self.run.hook(fr, head, n, ent):
            return
        GSem.loop_hook(self, fr, head, n, ent)

    def get(self, mem, p, rep, G, e=0, ins=None):
        if isinstance(p, Ptr) and len(p.b) == 1:
            (o, off), = p.b.items()
            if not off.isc():
                ls = []
                for lo, ex in rep.limbs[e]:
                    v = self.run.table(mem, o, off.__class__(off.lo, off.hi, off.p, off.may, off.t, off.u), 8, lo)
                    if v is None:
                        raise Lost('field operand at an unknown address')
                    ls.append(v)
                q = pconst(0)
                for (lo, ex), v in zip(rep.limbs[e], ls):
                    q = q.add(v.p.scale(1 << ex))
                return self.value(G, q, loc_str(ins) if ins else ''), [v.hi for v in ls]
        return GSem.get(self, mem, p, rep, G, e, ins)


class DRun(Run):
    HYP = 1.03125
    APT = 1.2

    def __init__(self, cfg, name, concrete=None):
        self.name = name
        self.fn, self.rec, G, self.nbytes, self.nbits = FUN[name]
        self.cfg, self.G = cfg, G
        self.m = build.module(cfg)
        if self.fn not in self.m.funcs or self.m.funcs[self.fn].decl:
            raise Lost('%s is not there' % self.fn)
        self.d = TDom(polymode=True, maxterms=20000)
        self.e = DEngine(self.m, self.d, max_undecided=1)
        self.sem = DSem(cfg, self.e, (G,))
        self.sem.run = self.e.run = self
        self.mem = Mem()
        self.words = {}
        self.undecided = []
        self.reds = []
        self.red = None
        if G == 'Fp448':
            self.e.callhook['word64_multiplier'] = self.multiplier
            self.e.callhook['modular_reduction_ed448'] = self.reduction
        self.K = {}            # object -> index of the recoding
        self.recs = []         # dict(obj, q, w, size)
        self.concrete = concrete
        if concrete is None:
            if self.rec not in self.m.funcs:
                raise Lost('%s is not there' % self.rec)
            self.e.callhook[self.rec] = self.recode
        self.state = None
        self.offs = {}
        self.conds = []
        self.results = []
        self.exiting = False
        self.cls = None

    def reduction(self, e, mem, a, ins):
        q = self.integer(mem, a[0], 14)
        if self.concrete is not None:
            if not q.isconst():
                raise Lost('reduction')
            v = q.const() % L44
            o, off = a[0].one()
            ob = mem.w(o)
            for i in range(7):
                e.wr(ob, off.lo + 8 * i, 8, C((v >> (64 * i)) & M64))
            for i in range(56, 114):
                e.wr(ob, off.lo + i, 1, C(0))
            return C(0)
        r = Run.reduction(self, e, mem, a, ins)
        self.reds.append(self.red)
        return r

    def integer(self, mem, p, n):
        return Run.integer(self, mem, p, n)

    def multiplier(self, e, mem, a, ins):
        return Run.multiplier(self, e, mem, a, ins)

    # ---- recoding: digits of an unknown scalar
    def recode(self, e, mem, a, ins):
        d = self.d
        ptr = [x for x in a if isinstance(x, Ptr)]
        num = [d.nu(x, 32) for x in a if not isinstance(x, Ptr)]
        if len(ptr) != 2 or len(num) != 1 or not num[0].isc():
            raise Lost('recoding with other arguments')
        w = num[0].lo
        if not 2 <= w <= 8:
            raise Lost('recoding of width %d' % w)
        o, off = ptr[0].one()
        ob = e.getobj(mem, o) if o else None
        if ob is None or not off.isc() or off.lo or not isinstance(ob.size, int):
            raise Lost('digits at an unknown place')
        for i in range(ob.size):
            v = d.nu(e.rd(ob, i, 1), 8)
            if not v.isc() or v.lo or v.u:
                raise Wrong('digits', 'the buffer of the digits is not zero at the start (byte %d)' % i, loc_str(ins) if ins else '')
        n = self.nbits // 64 + 1
        q = self.integer(mem, ptr[1], n)
        so, soff = ptr[1].one()
        for i in range(8 * n, self.nbytes):
            v = e.rd(e.getobj(mem, so), soff.lo + i, 1)
            if not v.isc() or v.lo:
                raise Lost('scalar longer than the group order')
        k = len(self.recs)
        l = d.fresh(0, self.nbits + 1, 'len%d' % k)
        self.recs.append(dict(obj=o, q=q, w=w, size=ob.size, l=next(iter(l.p.d))[0]))
        if o in self.K:
            raise Lost('two recodings into one buffer')
        self.K[o] = k
        return l

    def digit(self, o, off, size, ins):
        k = self.K[o]
        if size != 1 or self.state is None or self.exiting:
            raise Lost('a digit is read outside the loop')
        if self.cls is not None:
            p = self.d.ns(off, 64).p
            if p is None or not (p.add(self.I.p, -1)).isconst():
                raise Lost('a digit at a place that is not given by the loop counter')
            self.offs.setdefault(p.add(self.I.p, -1).const(), ins)
        return self.digits[k]

    # ---- constant tables read at a tabulated offset
    def table(self, mem, o, off, size, lo=0):
        r = self.d.fn(off)
        if r is None or r[0] is None:
            return None
        ob = self.e.getobj(mem, o)
        if ob is None:
            return None
        var, tab = r
        vals = []
        for x in tab:
            if isinstance(ob.size, int) and not 0 <= x + lo <= ob.size - size:
                raise Wrong('table', 'a table is read outside its bounds for the digit in case %d' % tab.index(x), '')
            v = self.d.nu(self.e.rd(ob, x + lo, size), 8 * size)
            if not v.isc() or v.u:
                return None
            vals.append(v.lo)
        return self.d.tv(var, tuple(vals))

    # ---- loop
    def hook(self, fr, head, n, ent):
        """True when the state at the head was replaced"""
        if self.concrete is not None or fr.f.name != self.fn or self.exiting:
            return False
        mem, ov, phis = ent
        if self.state is None:
            if n or len(self.recs) != 2:
                return False
            ls = {r['l'] for r in self.recs}
            hot = [k for k, v in phis.items() if isinstance(v, V) and v.p is not None and self.deps(v.p) & ls]
            if not hot:
                return False
            if len(phis) != 1:
                raise Lost('more than one value carried by the main loop')
            self.fr, self.head = fr, head
            self.blocks = fr.outside
            self.state = 0
            self.phi = hot[0]
            self.start = self.d.ns(phis[self.phi], 64 if phis[self.phi].hi >= 1 << 31 else 32)
            self.mem0 = {o: dict(ob.cells) for o, ob in mem.objs.items()}
            self.first = mem.copy()
            self.digits = [C(0), C(0)]
            self.cls = None
            self.e.oracle = self.oracle
            self.classes = self.mkclasses()
            return True
        if fr is not self.fr or head != self.head:
            return False
        if self.state == 0:
            self.structure(mem)
        else:
            self.collect(mem, phis)
        k = self.state
        self.state += 1
        if k == len(self.classes):
            # what is left of the function runs on a point R
            f = self.sem.F[self.G]
            self.qv = self.rv = [f.input('R%s' % x) for x in 'XYTZ']
            self.exiting = True
        self.havoc(mem, phis)
        if self.exiting:
            pass
        else:
            self.cls = self.classes[k]
            self.digits = [x[1] for x in self.cls]
        return True

    def deps(self, p):
        """atoms a value is made of, through definitions"""
        out, st = set(), [a for m in p.d for a in m]
        while st:
            a = st.pop()
            if a in out:
                continue
            out.add(a)
            A = self.d.atoms[a]
            if a in self.d.alias:
                st += [x for m in self.d.alias[a].d for x in m]
            if A.E is not None:
                st += [x for m in (A.E.d if isinstance(A.E, Poly) else A.E) for x in m]
            if a in self.d.cond:
                o, x, y = self.d.cond[a]
                st += [z for q in (x, y) for m in q.d for z in m]
        return out

    def mkclasses(self):
        d = self.d
        out = []
        opts = []
        # the role of a recoding is that of its scalar
        for r in self.recs:
            n = 1 << (r['w'] - 2)
            o = [('0', C(0))]
            odd = tuple(range(1, 2 * n, 2))
            if r['w'] >= 7:
                a = d.atom(0, n - 1, 'odd')
                d.vars.append(Var(len(d.vars), 0, n - 1, Poly({(a,): 1})))
                v = len(d.vars) - 1
                o.append(((v, odd), d.tv(v, odd)))
                o.append(((v, tuple(-x for x in odd)), d.tv(v, tuple(-x for x in odd))))
            else:
                for x in odd:
                    o += [(x, C(x)), (-x, C(-x))]
            opts.append(o)
        for x in opts[0]:
            for y in opts[1]:
                out.append((x, y))
        return out

    def oracle(self, c, t):
        if self.e.stack[-1] != self.fn:
            return None
        s = t['succ']
        out = [x not in self.blocks for x in s]
        if out[0] == out[1]:
            return None
        stay = 1 if out[0] else 0         # successor that stays
        if self.state == 0:
            return stay == 0
        if c.p is None:
            raise Lost('loop condition')
        self.conds.append((c.p, stay == 0))
        return (stay == 0) != self.exiting

    def structure(self, mem):
        rep = REPS[self.G]['_4w_red']
        found = []
        for (o, off), (G, r) in self.sem.places.items():
            ob = mem.objs.get(o)
            if r is not rep or ob is None or o not in self.mem0:
                continue
            c0 = self.mem0[o]
            if any(ob.cells.get(off + lo) is not c0.get(off + lo) and ob.cells.get(off + lo) != c0.get(off + lo) for e in range(4) for lo, ex in rep.limbs[e]):
                found.append((o, off))
        if len(found) != 1:
            raise Lost('the accumulator of the main loop is not found (%d candidates)' % len(found))
        self.Q = found[0]
        q = Ptr({self.Q[0]: C(self.Q[1])})
        self.init = [self.sem.get(self.first, q, rep, self.G, e) for e in range(4)]
        f = self.sem.F[self.G]
        self.qv = self.hv = [f.input('Q%s' % x) for x in 'XYTZ']
        self.units = [int(self.HYP * (1 << k)) - 1 for k in rep.widths]
        self.I = self.d.fresh(-1, self.nbits + 2, 'i')

    def havoc(self, mem, phis):
        rep = REPS[self.G]['_4w_red']
        f = self.sem.F[self.G]
        ob = mem.w(self.Q[0])
        for e in range(4):
            vs = self.sem.newset(self.G, [ex for _, ex in rep.limbs[e]], f.var(self.qv[e]), self.units, 'Q')
            for (lo, ex), v in zip(rep.limbs[e], vs):
                self.e.wr(ob, self.Q[1] + lo, 8, v)
        phis[self.phi] = self.I

    def collect(self, mem, phis):
        rep = REPS[self.G]['_4w_red']
        q = Ptr({self.Q[0]: C(self.Q[1])})
        r = [self.sem.get(mem, q, rep, self.G, e) for e in range(4)]
        v = phis[self.phi]
        p = self.d.ns(v, 32).p if isinstance(v, V) and not v.u else None
        self.results.append((self.cls, r, p))


def show(cls):
    return ' and '.join(str(x[0]) if not isinstance(x[0], tuple) else '%d..%d' % (x[0][1][0], x[0][1][-1]) for x in cls)


def run_main(cfg, name):
    run = DRun(cfg, name)
    d, sem, e, G = run.d, run.sem, run.e, run.G
    f = sem.F[G]
    rep = REPS[G]['_4w_red']
    ps, sbits = run.key('s', run.nbytes, run.nbits)
    ph, hbits = run.key('h', run.nbytes, run.nbits)
    o = Obj('A', rep.size, 'param', 'input', align=32)
    run.mem.add(o)
    run.av = [f.input('A%s' % x) for x in 'XYTZ']
    units = [int(run.APT * (1 << k)) for k in rep.widths]
    for k in range(4):
        vs = sem.newset(G, [ex for _, ex in rep.limbs[k]], f.var(run.av[k]), units, 'A')
        for (lo, ex), v in zip(rep.limbs[k], vs):
            o.cells[lo] = (8, v)
    out = run.buf('encoding', run.nbytes)
    ret, mem = e.call(run.fn, [out, ps, ph, Ptr({'A': C(0)})], run.mem)
    if run.state is None:
        raise Lost('the main loop is not found')
    if not run.exiting:
        raise Lost('the main loop is not followed')
    run.sb, run.hb = sbits, hbits
    return run, mem


def scalars(run, ob, fn):
    """which recoding belongs to which scalar; both exact"""
    L = L25 if run.G == 'Fp25519' else L44
    want = [Poly({(b,): 1 << i for i, b in enumerate(x)}) for x in (run.sb, run.hb)]
    role = {}
    for k, r in enumerate(run.recs):
        if run.G == 'Fp25519':
            for j in (0, 1):
                if r['q'] == want[j]:
                    role[k] = j
        else:
            for bits, q in run.reds:
                if r['q'] == Poly({(b,): 1 << i for i, b in enumerate(bits)}):
                    for j in (0, 1):
                        if group.congruent(q.scale(4), want[j], L):
                            role[k] = j
    return role


def check_main(run, mem, ob):
    """'' or what is not shown"""
    G, d, sem, fn = run.G, run.d, run.sem, run.fn
    f = sem.F[G]
    p = f.p
    role = scalars(run, ob, fn)
    if sorted(role.values()) != [0, 1]:
        return 'the recoded values are not the scalars', None
    ob('scalars', True)
    outs = group.output(run, mem, 'encoding', run.name, ob, fn)
    if outs is None:
        return 'the encoding is not followed', None
    grp = Group(G, True)
    pts = Points(f, grp, G)
    if not group.tables(run, pts, grp, ob):
        return 'the table of multiples of the base point is wrong', None
    tag = 'ed25' if G == 'Fp25519' else 'tw44'
    for vs, key in ((run.hv, 'Q'), (run.rv, 'R'), (run.av, 'A')):
        i = pts.point(tag, {key: (1,)})
        x, y, z = pts.c('x', i), pts.c('y', i), pts.c('z', i)
        for v, q in zip(vs, (pmul(p, x, z), pmul(p, y, z), pmul(p, pmul(p, x, y), z), z)):
            pts.sub[v] = q
    pts.prepare()
    # the neutral element at the start
    iv = [x for x, _ in run.init]
    c = [0 if not x else x[((), ())] if set(x) == {((), ())} else None for x in iv]
    if c[0] != 0 or c[2] != 0 or not c[1] or c[1] != c[3]:
        return 'the accumulator does not start as the neutral element', None
    ob('neutral element', all(b <= u for _, bs in run.init for b, u in zip(bs, run.units)), 'limbs of the initial value', fn)
    # loop counter
    offs = list(run.offs)
    if len(offs) != 1:
        return 'the two digits of an iteration are not taken at the same place', None
    c0 = offs[0]
    for cls, r, ip in run.results:
        if ip is None or ip != run.I.p.add(pconst(-1)):
            return 'the loop counter does not go down by one', None
    (ia,), = run.I.p.d
    for cond, stay in {(c, s): 0 for c, s in run.conds}:
        for v in range(d.atoms[ia].lo, d.atoms[ia].hi + 1):
            env = group.Env(d, {ia: v})
            if (bool(env.value(cond) & 1) == stay) != (v + c0 >= 0):
                return 'the loop is %s with counter %d' % ('left' if v + c0 >= 0 else 'not left', v), None
    ob('loop condition', True)
    la, lb = run.recs[0]['l'], run.recs[1]['l']
    size = min(r['size'] for r in run.recs)
    bad = None
    n = 0
    for x in range(run.nbits + 2):
        for y in range(run.nbits + 2):
            v = group.Env(d, {la: x, lb: y}).value(run.start.p) + c0
            n += 1
            if v < max(x, y) - 1 or v >= size:
                bad = (x, y, v)
                break
        if bad:
            break
    if bad:
        return 'with %d and %d digits the loop starts at digit %d' % bad, None
    ob('loop start', True)
    sem.e.count('pairs of lengths', n)
    for cls, r, ip in run.results:
        name = 'digits ' + show(cls)
        over = [b / (1 << w) for _, bs in r for b, u, w in zip(bs, run.units, REPS[G]['_4w_red'].widths) if b > u]
        if over:
            return '%s: limbs of the accumulator reach %.2f units' % (name, max(over)), cls
        want = {'Q': (2,)}
        for k, (x, v) in enumerate(cls):
            if x == '0':
                continue
            if role[k] == 0:
                if not isinstance(x, tuple):
                    return 'digits of s without a table', cls
                want[x[0]] = x[1]
            else:
                if isinstance(x, tuple):
                    return 'digits of h with a table', cls
                want['A'] = (x,)
        try:
            why = same(pts, [x for x, _ in r], tag, want)
        except Lost as ex:
            why = str(ex)
        if why:
            return '%s: %s' % (name, why), cls
        ob(name, True)
    # result
    try:
        return final(run, pts, outs, ob), None
    except Lost as ex:
        return str(ex), None


def same(pts, F, tag, want):
    """the four coordinates are those of the wanted point up to a common factor"""
    p = pts.p
    qs = []
    for x in F:
        if len(x) != 1:
            qs.append(pts.F(x))
        else:
            ((b, m), c), = x.items()
            if b:
                return 'a coordinate depends on a condition'
            qs.append(padd(p, {}, pts.mono(m), c))
    ids = pts.coords(*qs)
    if len(ids) != 1:
        return 'the accumulator is not recognised as a point'
    i = ids[0]
    x, y, z = pts.c('x', i), pts.c('y', i), pts.c('z', i)
    k = prop(p, qs[3], z)
    if k is None:
        return 'the accumulator is not recognised as a point'
    t, M = pts.pts[i]
    M = {v: c for v, c in M.items() if any(c)}
    sg = None
    for s in (1, -1):
        if all(prop(p, q, e) == s2 * k % p for q, e, s2 in ((qs[0], pmul(p, x, z), s), (qs[1], pmul(p, y, z), 1), (qs[2], pmul(p, pmul(p, x, y), z), s))):
            sg = s
    if sg is None:
        return 'the coordinates of the accumulator do not belong to one point'
    if t != tag or {v: tuple(sg * a for a in c) for v, c in M.items()} != want:
        return 'the accumulator becomes another point'
    return ''


def final(run, pts, outs, ob):
    p = pts.p
    qs = []
    for F in outs:
        if len(F) != 1:
            return 'the result is not a quotient of coordinates'
        ((b, mo), c), = F.items()
        n, de = pts.quotient(mo)
        qs.append((padd(p, {}, n, c), de))
    ids = pts.coords(*[q for pr in qs for q in pr])
    if len(ids) != 1:
        return 'the result is not a function of one point'
    i = ids[0]
    x, y = pts.c('x', i), pts.c('y', i)
    sg = 0
    for k, ((n, de), en) in enumerate(zip(qs, (x, y))):
        a, b = prop(p, n, en), prop(p, de, {(): 1})
        if a is None or b is None:
            return 'the result is not a coordinate of the accumulator'
        if k == 0 and (a + b) % p == 0:
            sg = -1
        elif a == b:
            sg = sg or 1
        else:
            return 'the result is not a coordinate of the accumulator'
    t, M = pts.pts[i]
    if t != ('ed25' if run.G == 'Fp25519' else 'ed44') or {v: tuple(sg * a for a in c) for v, c in M.items() if any(c)} != {'R': (1,)}:
        return 'the result is not the accumulator'
    ob('result', True)
    return ''


# ------------------------------------------------------------------ witnesses
def affine(cv, k):
    return cv.mul(k, B25 if cv is ED25 else group.twbase())


def concrete(cfg, name, s, h, a):
    """(x, y) delivered for A = a * base"""
    run = DRun(cfg, name, (s, h))
    G = run.G
    cv = ED25 if G == 'Fp25519' else TW44
    rep = REPS[G]['_4w_red']
    e = run.e
    for nm, v in (('s', s), ('h', h)):
        o = Obj(nm, run.nbytes, 'param', 'input')
        for i in range(run.nbytes):
            o.cells[i] = (1, C((v >> (8 * i)) & 255))
        run.mem.add(o)
    x, y = affine(cv, a)
    o = Obj('A', rep.size, 'param', 'input', align=32)
    run.mem.add(o)
    for k, v in enumerate((x, y, x * y % cv.p, 1)):
        ex = [z for _, z in rep.limbs[k]] + [256 if G == 'Fp25519' else 448]
        for j, (lo, z) in enumerate(rep.limbs[k]):
            o.cells[lo] = (8, C((v >> z) & ((1 << (ex[j + 1] - z)) - 1)))
    out = run.buf('encoding', run.nbytes)
    e.max_undecided = 1
    try:
        ret, mem = e.call(run.fn, [out, Ptr({'s': C(0)}), Ptr({'h': C(0)}), Ptr({'A': C(0)})], run.mem)
    except Lost:
        if not e.events:
            raise
    for x in list(e.events.values())[:1]:
        raise Wrong('fault', repr(x), x.loc)
    bad = []
    outs = group.output(run, mem, 'encoding', name, lambda i, ok, *r: bad.append(i) if not ok else None, run.fn)
    if outs is None or bad:
        return None
    return [F.get(((), ()), 0) if not F or set(F) == {((), ())} else None for F in outs]


def expected(name, s, h, a):
    if name == 'Ed25519':
        return ED25.mul((s + h * a) % L25, B25)
    # A stands for dual(A)/4: [h]A' with A' = [h/4 mod L] dual
    T = group.twbase()
    q = pow(4, -1, L44)
    return group.dual(TW44.mul((s * q + h * q * a) % L44, T))


def everydigit(w, n, first=0):
    """scalars below 2^(n-2) whose recoding contains every digit"""
    ds = [d for x in range((1 << w - 1) - 1, 0, -2) for d in (-x, x)]
    out = []
    per = (n - 2) // (w + 1) - 1
    while ds:
        part, ds = ds[:per], ds[per:]
        out.append(sum(d << (w + 1) * i for i, d in enumerate(part + [1])))
    return out


def witness(run, cfg, name, why, cls, ob, extra=()):
    n = FUN[name][4]
    L = L25 if name == 'Ed25519' else L44
    rnd = random.Random(5)
    ks = list(extra)
    mul4 = 4 if name == 'Ed448' else 1
    if cls is not None:
        sc = []
        for x, _ in cls:
            ds = [0] if x == '0' else [x] if isinstance(x, int) else [x[1][0], x[1][-1], x[1][len(x[1]) // 2], x[1][3]]
            sc.append([v if v >= 0 else v + 128 for v in ds])
        for i in range(max(map(len, sc))):
            ks.append((sc[0][i % len(sc[0])], sc[1][i % len(sc[1])]))
    else:
        ks += [(0, 0), (1, 0), (0, 1), (5, 3), (127, 31), (0, 255), (255, 0), (1 << 12, 1), (1, 1 << 12)]
    sd, hd = everydigit(7, n), everydigit(5, n)
    ks += [(L - 1, L - 1), (1, L - 2), (L - 2, 1)]
    ks[3:3] = [(x, hd[i % len(hd)]) for i, x in enumerate(sd)]
    ks.append(None)
    t0 = time.time()
    done = 0
    for k in ks:
        if time.time() - t0 > 250:
            break
        if k is None:
            s, h = rnd.getrandbits(n - 1), rnd.getrandbits(n - 1)
        else:
            s, h = k[0] * mul4 % L, k[1] * mul4 % L
        a = rnd.getrandbits(100) | 1
        try:
            got = concrete(cfg, name, s, h, a)
        except Lost as ex:
            run.append(('witness', str(ex)))
            continue
        except Wrong as ex:
            ob('result', False, '%s; for s = 0x%x, h = 0x%x: %s' % (why, s, h, ex), FUN[name][0])
            return
        done += 1
        exp = list(expected(name, s, h, a))
        if got is None or None in got:
            continue
        if got != exp:
            ob('result', False, '%s; for s = 0x%x, h = 0x%x and A = [0x%x] base point the result is not that of the specification' % (why, s, h, a), FUN[name][0])
            return
    run.append(('result', '%s, although none of %d pairs of scalars contradicts' % (why, done)))


class Result:
    def __init__(self):
        self.used, self.calls, self.e, self.undecided = set(), {}, None, []
        self.paths = 0


def jobs():
    r = []
    for c in build.CONFIGS:
        for n in FUN:
            r.append((c, 'dbl', n + '.main'))
            for w in WIDTHS:
                r.append((c, 'dbl', '%s.recoding.%d' % (n, w)))
    return r


def decide(cfg, g, ob):
    name, part = g.split('.')[:2]
    res = Result()
    fn, rec, G, nbytes, nbits = FUN[name]
    m = build.module(cfg)
    if fn not in m.funcs or m.funcs[fn].decl:
        raise Lost('%s is not there' % fn)
    if part == 'recoding':
        if rec not in m.funcs or m.funcs[rec].decl:
            raise Lost('%s is not there' % rec)
        why, wit, n = recoding(cfg, name, int(g.split('.')[2]))
        res.paths = n
        if wit:
            ob('recoding', False, wit, rec)
        elif why:
            res.undecided.append(('recoding', why))
        else:
            ob('recoding', True)
            ob('digits', True)
        return res
    cls = None
    try:
        run, mem = run_main(cfg, name)
        res.used, res.calls, res.e = run.sem.used, run.sem.calls, run.e
        for x in list(run.e.events.values())[:3]:
            ob('fault', False, repr(x), fn)
        ws = {r['w'] for r in run.recs}
        if not ws <= set(WIDTHS):
            raise Lost('recoding widths %s' % sorted(ws))
        why, cls = check_main(run, mem, ob)
    except Lost as ex:
        why = str(ex)
    if why:
        witness(res.undecided, cfg, name, why, cls, ob)
    return res


if __name__ == '__main__':
    cfg = sys.argv[2] if len(sys.argv) > 2 else 'adx'
    cnt = [0, 0]

    def ob(i, ok, dd='', w=''):
        cnt[not ok] += 1
        if not ok:
            print('FAIL', i, dd, w)
    t = time.time()
    r = decide(cfg, sys.argv[1], ob)
    print(sys.argv[1], cnt, r.undecided, r.paths, time.time() - t)
