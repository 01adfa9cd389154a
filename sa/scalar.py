"""Scalar arithmetic modulo the group orders (Ed25519: L255, Ed448: L448).

The routine is interpreted on symbolic 64-bit words.  Whenever a callee has left a multi-word number in
memory whose carries all cancel, the words are replaced by fresh unknowns together with the fact
"sum of words = Q" (a polynomial over earlier unknowns); the sign of Q is a case distinction.  The final
words must then be congruent to the specified value modulo the order, by exact polynomial arithmetic
from the facts, and lie in [0, order)."""
import build
from dom import Dom, V, Ptr, C, Poly, pconst
from interp import Engine, Mem, Obj
from fieldsem import Lost, Wrong
from proto import Paths, L255, L448

M64 = (1 << 64) - 1


class Num:
    """words (as polys) with sum w_j 2^(64j) = Q + off, 0 <= Q + off < 2^(64 n)"""

    def __init__(self, words, atoms, Q, off, lo, hi):
        self.words, self.atoms, self.Q, self.off, self.lo, self.hi = words, atoms, Q, off, lo, hi

    def total(self):
        p = Poly({})
        for j, w in enumerate(self.words):
            p = p.add(w.scale(1 << (64 * j)))
        return p


class Prune(Exception):
    """The case distinctions made on this path contradict each other."""


class SDom(Dom):
    """Selections by an all-zeros/all-ones word are a case distinction on the bit it was made from."""
    owner = None

    def known(self, x):
        if x.isc() or x.p is None or x.lo < -1 or x.hi > 0:
            return x
        p = self.owner.split(self.owner.fix(x.p))
        return V(p.const(), p.const(), p, None, x.t, x.u) if p.isconst() else x

    def band(self, a, b, w):
        return Dom.band(self, self.known(a), self.known(b), w)


class Sc:
    def __init__(self, m, paths):
        self.m, self.paths = m, paths
        self.d = SDom(True, maxterms=60000)
        self.d.owner = self
        self.e = Engine(m, self.d, max_undecided=1)
        self.e.budget = 8000000
        self.e.frame_exit = self.fexit
        self.e.frame_entry = self.fentry
        self.mem = Mem()
        self.nums = []
        self.base = set()
        self.fixed = {}
        self.facts = []        # (poly, lo, hi)
        self.used = set()
        self.calls = {}
        self.undecided = []
        self.tried = 0

    def words(self, name, n, size=None, bound=None):
        """an input object whose first n words are unknowns"""
        o = Obj(name, size or 8 * n, 'param', 'undef')
        self.mem.add(o)
        p = Poly({})
        for i in range(n):
            v = self.d.fresh(0, bound[i] if bound else M64, '%s[%d]' % (name, i))
            for mo in v.p.d:
                self.base |= set(mo)
            self.e.wr(o, 8 * i, 8, v)
            p = p.add(v.p.scale(1 << (64 * i)))
        return Ptr({name: C(0)}), p

    def out(self, name, size):
        self.mem.add(Obj(name, size, 'param', 'undef'))
        return Ptr({name: C(0)})

    # ---- abstraction of numbers left in memory
    def isbase(self, p):
        return all(a in self.base for m in p.d for a in m)

    def loose(self, p):
        """over numbers' words and bit slices of single words"""
        return all(a in self.base or self.d.atoms[a].E is not None and self.isbase(self.d.atoms[a].E) for m in p.d for a in m)

    def fix(self, p):
        return Poly(self.d._subst(p.d, self.fixed)) if self.fixed else p

    def range(self, Q):
        lo, hi = self.d.prange(Q.d)
        for p, l, h in self.facts:
            x = Q.add(p, -1)
            if x.isconst():
                lo, hi = max(lo, l + x.const()), min(hi, h + x.const())
        if lo > hi:
            raise Prune()
        return lo, hi

    def split(self, Q):
        """case distinction on two-valued top bits of numbers that occur in Q"""
        for a in sorted({a for m in Q.d for a in m if a not in self.base}):
            at = self.d.atoms[a]
            if at.hi - at.lo != 1:
                continue
            for g in self.nums:
                j = next((j for j, w in enumerate(g.words) if w == at.E), None)
                if j is None or any(w.d for w in g.words[j + 1:]):
                    continue
                t = 64 * j + at.k
                v = at.lo + self.paths.choose(2)
                self.fixed[a] = v
                self.facts.append((g.Q.add(pconst(g.off)), max(g.lo, v << t), min(g.hi, ((v + 1) << t) - 1)))
                break
        return self.fix(Q)

    def fexit(self, e, fr, mem, ret):
        if len(e.stack) <= 1:
            return
        fn = fr.f.name
        self.calls[fn] = self.calls.get(fn, 0) + 1
        seen = set()
        for k, v in list(fr.env.items()):
            if not (isinstance(k, int) and k < 0 and isinstance(v, Ptr)):
                continue
            o, off = v.one()
            if o is None or not off.isc() or o in fr.locals or o in seen:
                continue
            seen.add(o)
            ob = e.getobj(mem, o)
            if ob is None or ob.ro or not isinstance(ob.size, int) or ob.size > 256:
                continue
            self.abstract(mem, o, off.lo)

    def fentry(self, e, fr, mem, args):
        """small words handed to a callee as sums of bit slices become unknowns of their own"""
        if not e.stack:
            return
        for v in args:
            if not isinstance(v, Ptr):
                continue
            o, off = v.one()
            if o is None or not off.isc():
                continue
            ob = e.getobj(mem, o)
            if ob is None or ob.ro or not isinstance(ob.size, int) or ob.size > 256:
                continue
            for j in range((ob.size - off.lo) // 8):
                c = ob.cells.get(off.lo + 8 * j)
                if c is None or c[0] != 8 or not isinstance(c[1], V) or c[1].u:
                    continue
                w = self.d.nu(c[1], 64)
                if w.p is None or len(w.p.d) < 2 or w.isc():
                    continue
                z = self.d.fresh(w.lo, w.hi, 'x%d' % len(self.nums))
                self.nums.append(Num([z.p], [(self.note(z), 1)], w.p, 0, w.lo, w.hi))
                self.e.wr(mem.w(o), off.lo + 8 * j, 8, z)

    def abstract(self, mem, o, off):
        d = self.d
        ob = mem.objs[o]
        ws = []
        for j in range((ob.size - off) // 8):
            c = ob.cells.get(off + 8 * j)
            if c is None or c[0] != 8 or not isinstance(c[1], V) or c[1].u:
                break
            w = d.nu(c[1], 64)
            if w.p is None:
                break
            ws.append(w)
        dirty = [j for j, w in enumerate(ws) if not self.isbase(w.p)]
        if not dirty:
            return
        n = dirty[-1] + 1
        lo0 = 0
        P = Poly({})
        for j in range(lo0, n):
            P = P.add(ws[j].p.scale(1 << (64 * j)))
        M = 1 << (64 * n)
        Q = Poly({m: c for m, c in P.d.items() if c % M or not m})
        Q = Poly({m: c if m else c % M for m, c in Q.d.items() if m or c % M})
        if not self.loose(Q):
            return
        Q = self.split(self.fix(Q))
        # constant chosen so that the range fits one or two periods
        lo, hi = self.range(Q)
        if hi >= M:
            k = -(-(hi + 1 - M) // M)
            Q = Q.add(pconst(-k * M))
            lo, hi = lo - k * M, hi - k * M
        if lo < -M:
            return
        neg = False
        if lo < 0:
            neg = True if hi < 0 else bool(self.paths.choose(2))
        mem_o = mem.w(o)
        if neg:
            # words of X = Q + M = M-1-Z, Z = -1-Q
            zhi = -1 - lo
            words, atoms = [], []
            for j in range(n):
                b = min(M64, zhi >> (64 * j))
                z = d.fresh(0, b, 'z%d.%d' % (len(self.nums), j))
                a = self.note(z)
                v = V(M64 - b, M64, pconst(M64).add(z.p, -1))
                words.append(v.p)
                atoms.append((a, -1))
                self.e.wr(mem_o, off + 8 * j, 8, v)
            self.nums.append(Num(words, atoms, Q, M, lo + M, min(hi, -1) + M))
        else:
            words, atoms = [], []
            for j in range(n):
                b = min(M64, hi >> (64 * j))
                b0 = max(lo, 0) >> (64 * j) if hi >> (64 * j + 64) == 0 else 0
                z = d.fresh(b0, b, 'y%d.%d' % (len(self.nums), j))
                a = self.note(z)
                words.append(z.p)
                atoms.append((a, 1))
                self.e.wr(mem_o, off + 8 * j, 8, z)
            self.nums.append(Num(words, atoms, Q, 0, max(lo, 0), hi))

    def note(self, z):
        if z.isc():
            return None
        (a,), = z.p.d
        self.base.add(a)
        return a

    # ---- congruence of the result
    def resolve(self, R, ell):
        """R modulo ell over the input unknowns."""
        d = self.d
        R = self.fix(R)
        R = Poly({m: c % ell for m, c in R.d.items() if c % ell})
        for g in reversed(self.nums):
            own = {a for a, _ in g.atoms if a is not None}
            if not own:
                continue
            # bit slices of the number: floor(w_j / 2^k) marks the number modulo 2^(64j+k)
            fl = {}
            for m in R.d:
                for a in m:
                    at = d.atoms[a]
                    if a not in own and at.E is not None and {x for mm in at.E.d for x in mm} <= own:
                        fl[a] = at
            rest = {}
            for m, c in R.d.items():
                hit = [a for a in m if a in own or a in fl]
                if hit:
                    if len(hit) > 1:
                        raise Lost('a product of two parts of one number')
                    co = list(m)
                    co.remove(hit[0])
                    rest.setdefault(tuple(co), {})[hit[0]] = c
            out = {m: c for m, c in R.d.items() if not any(a in own or a in fl for a in m)}
            R = Poly(out)
            inv2 = {}
            for co, part in rest.items():
                # marks, highest first
                marks = []
                for a in part:
                    if a in fl:
                        at = d.atoms[a]
                        j = next((j for j, w in enumerate(g.words) if at.E == w), None)
                        if j is None:
                            raise Lost('a bit slice %s of an unknown word' % d.show(Poly({(a,): 1})))
                        marks.append((64 * j + at.k, j, a))
                marks.sort()
                acc = Poly({})
                cur = {a: c for a, c in part.items()}
                for t, j, a in marks:
                    # K * (X mod 2^t) contributes -K 2^t to the mark
                    K = -cur[a] * pow(pow(2, t, ell), -1, ell) % ell
                    T = Poly({(a,): -(1 << t)})
                    for i in range(j + 1):
                        T = T.add(g.words[i].scale(1 << (64 * i)))
                    Y = self.period(g.Q.add(pconst(g.off)), t)
                    acc, cur = self.take(acc, cur, T, Y, K, ell)
                # whole number
                cur = {a: c for a, c in cur.items() if c % ell}
                if cur:
                    a0 = min((a for a in cur if a in own), key=lambda a: next(j for j, (x, _) in enumerate(g.atoms) if x == a), default=None)
                    if a0 is None:
                        raise Lost('a bit slice is left over')
                    j0 = next(j for j, (x, _) in enumerate(g.atoms) if x == a0)
                    K = cur[a0] * g.atoms[j0][1] * pow(pow(2, 64 * j0, ell), -1, ell) % ell
                    T = Poly({})
                    for i, w in enumerate(g.words):
                        T = T.add(w.scale(1 << (64 * i)))
                    acc, cur = self.take(acc, cur, T, g.Q.add(pconst(g.off)), K, ell)
                    cur = {a: c for a, c in cur.items() if c % ell}
                    if cur:
                        return None
                R = R.add(acc.mul(Poly({co: 1})))
            R = self.fix(R)
            R = Poly({m: c % ell for m, c in R.d.items() if c % ell})
        return R

    def take(self, acc, cur, T, Y, K, ell):
        """subtract K*T from the coefficients in cur, add K*Y to acc"""
        cur = dict(cur)
        acc = acc.add(Y.scale(K))
        for m, c in T.d.items():
            if m == ():
                acc = acc.add(pconst(-K * c))
            else:
                cur[m[0]] = (cur.get(m[0], 0) - K * c) % ell
        return acc, cur

    def period(self, Q, t):
        """a polynomial equal to Q modulo 2^t with range inside [0, 2^t)"""
        M = 1 << t
        best = {}
        for m, c in Q.d.items():
            r = c % M
            if r and m:
                best[m] = r if r <= M // 2 else r - M
        p = Poly(best)
        lo, hi = self.d.prange(p.d)
        c0 = Q.const() % M
        k = -((lo + c0) // M)
        p = p.add(pconst(c0 + k * M))
        if lo + c0 + k * M < 0 or hi + c0 + k * M >= M:
            raise Lost('the kept low bits of a number do not determine it (range %d bits of %d)' % ((hi - lo).bit_length(), t))
        return p


def result(s, mem, name, off, n, tail=()):
    """result words as one polynomial, exact below 2^(64n)"""
    ob = s.e.getobj(mem, name)
    P = Poly({})
    vs = []
    for j in range(n):
        w = s.e.rd(ob, off + 8 * j, 8)
        if not isinstance(w, V) or w.u:
            raise Wrong('result', 'word %d of the result is not a defined integer' % j)
        w = s.d.nu(w, 64)
        if w.p is None:
            raise Lost('word %d of the result has no relation to the operands' % j)
        vs.append(w)
        P = P.add(w.p.scale(1 << (64 * j)))
    for i in tail:
        w = s.e.rd(ob, off + i, 1)
        if not (isinstance(w, V) and w.isc() and w.lo == 0 and not w.u):
            raise Wrong('tail', 'byte %d of the result is not zero' % i)
    return P, vs


class Skip(Exception):
    """The sample does not take this path."""


def evaluate(s, env):
    """Value of a polynomial under an assignment of the operand unknowns, from the definitions of its atoms."""
    d = s.d
    owner = {}
    for g in s.nums:
        for j, (a, sg) in enumerate(g.atoms):
            if a is not None:
                owner[a] = (g, j, sg)

    def atom(a):
        st = [a]
        while st:
            x = st[-1]
            if x in env:
                st.pop()
                continue
            at = d.atoms[x]
            if x in owner:
                src = owner[x][0].Q
            elif at.E is not None:
                src = at.E
            else:
                raise Lost('%s has no definition' % at.name)
            need = [y for m in src.d for y in m if y not in env]
            if need:
                st += need
                if len(st) > 100000:
                    raise Lost('definitions too deep')
                continue
            v = num(src)
            if x in owner:
                g, j, sg = owner[x]
                v += g.off
                if not 0 <= v < 1 << (64 * len(g.words)):
                    raise Skip()
                w = v >> (64 * j)
                if len(g.words) > 1:
                    w &= M64
                env[x] = w if sg > 0 else M64 - w
            else:
                env[x] = v >> at.k
            st.pop()
        return env[a]

    def num(p):
        r = 0
        for m, c in p.d.items():
            for a in m:
                c *= atom(a)
            r += c
        return r

    return num


def samples(s, ell):
    """operand values: structured, boundary and near multiples of the order"""
    import random
    rnd = random.Random(7)
    names = {}
    for a in sorted(x for x in s.base if s.d.atoms[x].name[-1] == ']'):
        n = s.d.atoms[a].name
        names.setdefault(n[:n.index('[')], []).append(a)

    def rand(bits):
        k = rnd.randrange(7)
        if k == 0:
            return rnd.getrandbits(bits)
        if k == 1:
            return (1 << bits) - 1 - rnd.getrandbits(rnd.choice([1, 8, bits // 2]))
        if k == 2:
            return rnd.getrandbits(rnd.choice([1, 8, 64]))
        if k == 3:
            return max(0, min((1 << bits) - 1, ell * rnd.randrange(0, 5) + rnd.randrange(-2, 3)))
        if k == 6:
            r = 0
            for i in range(0, bits, 64):
                r |= rnd.choice([0, 1, M64, M64 - 1, rnd.getrandbits(64)]) << i
            return r & ((1 << bits) - 1)
        if k == 4:
            r = 0
            for i in range(0, bits, 32):
                r |= rnd.choice([0, 0xffffffff, 1, 0xfffffffe]) << i
            return r & ((1 << bits) - 1)
        q = (1 << bits) // ell
        return min((1 << bits) - 1, ell * rnd.randrange(q + 1) + rnd.randrange(3))
    for t in range(1200):
        env = {}
        val = {}
        for n, at in names.items():
            bits = sum(s.d.atoms[a].hi.bit_length() for a in at)
            val[n] = rand(bits)
        if len(names) == 3 and t % 2:
            # r + k*a close to a multiple of the order
            n = list(names)
            val['r'] = (-val[n[1]] * val[n[2]] + rnd.randrange(-1, 2)) % ell
        for n, at in names.items():
            v = val[n]
            for a in at:
                b = s.d.atoms[a].hi.bit_length()
                env[a] = v & ((1 << b) - 1)
                v >>= b
        yield env, val


def judge(s, ob, P, n, want, ell, tag, where):
    d = s.d
    M = 1 << (64 * n)
    # dropped wraps: the words are in [0, 2^64), so the number is R modulo 2^(64n)
    R = s.fix(Poly({m: c for m, c in P.d.items() if c % M or not m}))
    if any(len(m) > 1 and any(a not in s.base for a in m) for m in R.d):
        R = s.split(R)      # a selection by a bit: one case per value
    why = None
    try:
        got = s.resolve(R, ell)
        if got is None:
            raise Lost('the result is not composed of whole numbers')
        wm = Poly({m: c % ell for m, c in want.d.items() if c % ell})
        df = got.add(wm, -1)
        df = Poly({m: c % ell for m, c in df.d.items() if c % ell})
        if df.d:
            why = 'the result differs from the specified value modulo the order by %s' % d.show(df, 4)
    except Lost as ex:
        why = str(ex)
    if why is None:
        ob('congruent' + tag, True, '', where)
        inr = False
        for g in s.nums:
            x = R.add(g.total(), -1)
            if x.isconst():
                lo, hi = s.range(g.Q.add(pconst(g.off)))
                inr = inr or max(lo, g.lo) + x.const() >= 0 and min(hi, g.hi) + x.const() < ell
        lo, hi = s.range(R)
        inr = inr or lo >= 0 and hi < ell
        if inr or d.range_cases(R, 0, ell - 1, 3):
            ob('canonical' + tag, True, '', where)
            return
        why = 'the result is not shown to be below the order'
    # not shown: look for operands on which the extracted relation contradicts the specification
    n_ok = 0
    for env, val in samples(s, ell):
        num = evaluate(s, env)
        try:
            for a, v in s.fixed.items():
                if num(Poly({(a,): 1})) != v:
                    raise Skip()
            r, w = num(P) % M, num(want) % ell
        except Skip:
            continue
        if r != w:
            ob('congruent' + tag if r % ell != w else 'canonical' + tag, False, 'for %s the words written are 0x%x, specified is 0x%x' % (', '.join('%s = 0x%x' % x for x in val.items()), r, w), where)
            return
        n_ok += 1
    s.undecided.append(('value' + tag, why))
    s.tried = n_ok


def job(name):
    def deco(f):
        JOBS[name] = f
        return f
    return deco


JOBS = {}


@job('modular_reduction_ed25519')
def _(s, fn, ob, tag):
    a, A = s.words('a', 8)
    ret, mem = s.e.call(fn, [a], s.mem)
    P, _ = result(s, mem, 'a', 0, 4)
    judge(s, ob, P, 4, A, L255, tag, fn)


@job('reduce64bits')
def _(s, fn, ob, tag):
    a, A = s.words('a', 5, 64, [M64, M64, M64, (1 << 60) - 1, 63])
    ret, mem = s.e.call(fn, [a], s.mem)
    P, _ = result(s, mem, 'a', 0, 4)
    want = Poly({})
    for i in range(4):
        want = want.add(s.d.nu(V(0, M64, Poly({m: (c >> (64 * i)) for m, c in A.d.items() if c == 1 << (64 * i)})), 64).p.scale(1 << (64 * i)))
    a4 = Poly({m: 1 for m, c in A.d.items() if c == 1 << 256})
    judge(s, ob, P, 4, want.add(a4.scale(1 << 252)), L255, tag, fn)


@job('calculate_s_ed25519')
def _(s, fn, ob, tag):
    r, R = s.words('r', 4, 64)
    k, K = s.words('k', 4, 64)
    a, A = s.words('a', 4, 64)
    o = s.out('s', 32)
    ret, mem = s.e.call(fn, [o, r, k, a], s.mem)
    P, _ = result(s, mem, 's', 0, 4)
    judge(s, ob, P, 4, R.add(K.mul(A)), L255, tag, fn)


@job('modular_reduction_ed448')
def _(s, fn, ob, tag):
    a, A = s.words('a', 14, 114)
    t = s.d.fresh(0, 65535, 'a[14]')
    s.base |= {x for m in t.p.d for x in m}
    s.e.wr(s.mem.w('a'), 112, 2, t)
    ret, mem = s.e.call(fn, [a], s.mem)
    P, _ = result(s, mem, 'a', 0, 7, range(56, 114))
    judge(s, ob, P, 7, A.add(t.p.scale(1 << 896)), L448, tag, fn)


@job('calculate_s_ed448')
def _(s, fn, ob, tag):
    r, R = s.words('r', 7, 114)
    k, K = s.words('h', 7, 114)
    a, A = s.words('a', 7, 114)
    o = s.out('s', 57)
    ret, mem = s.e.call(fn, [o, r, k, a], s.mem)
    P, _ = result(s, mem, 's', 0, 7, [56])
    judge(s, ob, P, 7, R.add(K.mul(A)), L448, tag, fn)


@job('div4')
def _(s, fn, ob, tag):
    a, A = s.words('a', 7, 57)
    o = s.out('q', 57)
    ret, mem = s.e.call(fn, [o, a], s.mem)
    P, _ = result(s, mem, 'q', 0, 7, [56])
    judge(s, ob, P, 7, A.scale(pow(4, -1, L448)), L448, tag, fn)


REQUIRED = ['modular_reduction_ed25519', 'calculate_s_ed25519', 'modular_reduction_ed448', 'calculate_s_ed448']


def jobs():
    r = []
    for cfg in build.CONFIGS:
        m = build.module(cfg)
        for n in JOBS:
            if n in m.funcs and not m.funcs[n].decl:
                r.append((cfg, 'scalar', n))
            elif n in REQUIRED:
                raise Lost('%s is gone' % n)
    return r


def decide(cfg, name, ob):
    m = build.module(cfg)
    paths = Paths(64)
    undecided, tried = [], 0
    while True:
        paths.start()
        s = Sc(m, paths)
        try:
            JOBS[name](s, name, ob, ' (case %d)' % paths.n)
        except Prune:
            pass
        for x in list(s.e.events.values())[:3]:
            ob('fault', False, repr(x), name)
        undecided += s.undecided
        tried += s.tried
        if not paths.next():
            break
    if undecided and tried < 400:
        raise Lost(undecided[0][1])
    s.paths, s.undecided = paths.n, [(i, '%s; no contradiction on %d operand values' % (w, tried)) for i, w in undecided]
    return s


if __name__ == '__main__':
    import sys, time
    for n in sys.argv[2:] or JOBS:
        t = time.time()
        try:
            decide(sys.argv[1], n, lambda i, ok, dt='', w='': print(n, i, ok, '' if ok else dt[:300]))
        except (Lost, Wrong) as ex:
            print(n, type(ex).__name__, ex)
        print('%.1fs' % (time.time() - t))
