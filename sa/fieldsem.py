"""Field-level meaning of whole functions: abstract interpretation in which every field element is a
set of limb unknowns with a known value in Z/p, kept as a polynomial over earlier elements.

Multiplications, squarings, reductions and conversions are taken at the level of their algebraic
specification; each use is justified by an analysis of the callee's own body for the operand bounds
at that call (`Spec`, red-radix) or by the slot obligations of l0.py (full radix).  Everything else
(additions, lane shuffles, selections, copies) is interpreted instruction by instruction.

A field value is {(booleans, monomial): coefficient}; a monomial is a tuple of (variable, exponent).
Variables are function inputs or sums: a product of two values is always a monomial of such
variables, so inversion chains collapse to one exponent."""
import build, slots, l0
from dom import V, Ptr, Vec, C, Poly, Dom, ZERO, pconst
from interp import Engine, Mem, Obj
from rep import REPS, Rep, P255, P448, wide, multi, mkin, mkout, limbs, inlimbs, val, modp
from ir import loc_str


import re
RE = re.compile(r'(intmul|intsqr|mul|sqr|compress|compressfast|compress2|new_compressfast|new_compressfast2)_(Fp25519|Fp448)_(1w_red|2w_red|4w_red)radix$')


class Lost(Exception):
    """The analysis cannot follow the code."""


class Wrong(Exception):
    """The code breaks a rule at a specific place."""
    def __init__(self, what, msg, where=''):
        Exception.__init__(self, msg)
        self.what, self.where = what, where


class Field:
    """Values over Z/p."""

    def __init__(self, p):
        self.p = p
        self.defs = []         # var -> normalised F, or None for inputs
        self.names = []
        self.memo = {}
        self.ints = {}
        self.site = ''
        self.sites = []

    def input(self, name):
        self.defs.append(None)
        self.names.append(name)
        self.sites.append(self.site)
        return len(self.defs) - 1

    def const(self, c):
        c %= self.p
        return {((), ()): c} if c else {}

    def var(self, v):
        return {((), ((v, 1),)): 1}

    def add(self, f, g, k=1):
        r = dict(f)
        for m, c in g.items():
            x = (r.get(m, 0) + k * c) % self.p
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r

    def scale(self, f, k):
        k %= self.p
        return {m: c * k % self.p for m, c in f.items()} if k else {}

    def mono(self, f):
        """f as c * monomial, naming the sum when it has several terms"""
        if not f:
            return 0, ()
        if len(f) == 1:
            ((b, m), c), = f.items()
            if not b:
                return c, m
        k = min(f)
        c = f[k]
        ci = pow(c, -1, self.p)
        g = {m: x * ci % self.p for m, x in f.items()}
        key = frozenset(g.items())
        v = self.memo.get(key)
        if v is None:
            self.defs.append(g)
            self.names.append('v%d' % (len(self.defs) - 1))
            self.sites.append(self.site)
            v = self.memo[key] = len(self.defs) - 1
        return c, ((v, 1),)

    def mexp(self, e):
        return e if e < self.p else (e - 1) % (self.p - 1) + 1

    def mmul(self, m, n):
        d = dict(m)
        for v, e in n:
            d[v] = self.mexp(d.get(v, 0) + e)
        return tuple(sorted(d.items()))

    def mul(self, f, g):
        c, m = self.mono(f)
        k, n = self.mono(g)
        c = c * k % self.p
        return {((), self.mmul(m, n)): c} if c else {}

    def evaluate(self, F, env, bits):
        """The value of F for given inputs and bits."""
        p = self.p
        memo = env
        todo = [m for (b, m) in F]
        need = set()
        st = [x for m in todo for x, _ in m]
        while st:
            v = st.pop()
            if v in need or v in memo:
                continue
            need.add(v)
            if self.defs[v] is None:
                raise KeyError(self.names[v])
            st += [x for (b, m) in self.defs[v] for x, _ in m]

        def ev(G):
            r = 0
            for (b, m), c in G.items():
                if all(bits[x] for x in b):
                    for x, e in m:
                        c = c * pow(memo[x], e, p) % p
                    r += c
            return r % p
        for v in sorted(need):
            memo[v] = ev(self.defs[v])
        return ev(F)

    def show(self, f, n=6):
        def mm(b, m):
            return '*'.join(['b%d' % x for x in b] + ['%s%s' % (self.names[v], '^%d' % e if e != 1 else '') for v, e in m]) or '1'
        s = ' + '.join('%d*%s' % (c if c < self.p // 2 else c - self.p, mm(*k)) for k, c in sorted(f.items())[:n])
        return (s or '0') + (' ...' if len(f) > n else '')


_inst = {}


def up(n, k):
    """n/2^k rounded up to a coarse grid"""
    r = (n + 1) / (1 << k)
    if r <= 8:
        return -(-(n + 1) * 32 // (1 << k)) / 32
    j = max(0, (n + 1).bit_length() - 6)
    return float(-(-(n + 1) >> j) << j) / (1 << k)


def ratios(bs, w):
    """limb bounds of several elements as multiples of the limb weights, rounded up"""
    return tuple(up(max(b[i] for b in bs), k) for i, k in enumerate(w))


def operand(bs, rep):
    """bounds of an operand, lane by lane where four lanes differ"""
    if rep.n == 4:
        r = [ratios([b], rep.widths) for b in bs]
        if any(x != r[0] for x in r):
            return tuple(r)
    return ratios(bs, rep.widths)


def instance(m, cfg, fn, G, w, op, us):
    """Analyse one red-radix routine for operand limbs up to us[i]*2^w: (failure or None, result limb bounds)."""
    key = (cfg, fn, w, op, us)
    r = _inst.get(key)
    if r is None:
        r = _inst[key] = _instance(m, cfg, fn, G, w, op, us)
    return r


class _Null:
    def __init__(self):
        self.bad = []
        self.broken = []

    def ob(self, oid, ok, detail='', where=''):
        if not ok:
            self.bad.append((oid, detail, where))

    def count(self, *a):
        pass


def _instance(m, cfg, fn, G, w, op, us):
    ck = _Null()
    s = l0.Slot(ck, m, cfg, G, w, '%s.%s' % (w, op), fn)
    rep = s.rep
    n = rep.n
    def inp(name, u):
        if isinstance(u[0], tuple):     # lane by lane
            return mkin(s.e, s.mem, name, rep, None, bounds=[[min(int(x * (1 << k)), (1 << 64) - 1) for x, k in zip(v, rep.widths)] for v in u])
        return mkin(s.e, s.mem, name, rep, None, bounds=[min(int(x * (1 << k)), (1 << 64) - 1) for x, k in zip(u, rep.widths)])
    outs = []
    try:
        if op in ('mul', 'intmul'):
            a, b, c = inp('a', us[0]), inp('b', us[1]), s.out('c')
            s.run(c, a, b)
            for i in range(n):
                s.cong('product#%d' % i, s.ov('c', i), s.iv('a', i).mul(s.iv('b', i)))
            outs = ['c']
        elif op in ('sqr', 'intsqr'):
            a = inp('a', us[0])
            s.run(a)
            for i in range(n):
                A = s.iv('a', i)
                s.cong('square#%d' % i, s.ov('a', i), A.mul(A))
            outs = ['a']
        elif op in ("compress", "compressfast", "new_compressfast"):
            a = inp('a', us[0])
            s.run(a)
            for i in range(n):
                s.cong('value#%d' % i, s.ov('a', i), s.iv('a', i))
            outs = ['a']
        elif op in ('compress2', 'new_compressfast2'):
            a, b = inp('a', us[0]), inp('b', us[1])
            s.run(a, b)
            for x in 'ab':
                for i in range(n):
                    s.cong('value.%s#%d' % (x, i), s.ov(x, i), s.iv(x, i))
            outs = ['a', 'b']
        else:
            raise Lost('no instance for ' + op)
        s.events('fault')
    except Wrong:
        raise
    if ck.bad:
        return ck.bad[0], None
    bs = []
    lanes = any(isinstance(u[0], tuple) for u in us)
    for o in outs:
        b = [[0] * len(rep.widths) for _ in range(n)]
        for i in range(n):
            for j, l in enumerate(limbs(s.e, s.mem, o, rep, i)):
                if l.lo < 0 or l.hi >= 1 << 64:
                    return ('limbs', 'a result limb may leave 64 bits', s.where()), None
                b[i][j] = l.hi
        bs.append(b if lanes else [max(x) for x in zip(*b)])
    return None, bs


class Sem:
    """Hooks and value registry for one interpretation."""

    def __init__(self, cfg, e, fields=('Fp25519', 'Fp448')):
        self.cfg, self.e, self.d, self.m = cfg, e, e.dom, e.m
        self.F = {G: Field(P255 if G == 'Fp25519' else P448) for G in fields}
        self.limb = {}         # atom -> (set, index)
        self.sets = []         # (G, exps, F)
        self.members = []
        self.loops = {}
        self.places = {}
        e.loop_hook = self.loop_hook
        self.data = set()      # atoms that are data bits, read as integers
        self.calls = {}        # (slot, site) -> count
        self.used = set()      # full-radix slots relied on
        self.canon = {}        # atom -> set: canonical bytes words
        self.wrong = []
        self.hookall(fields)

    def hookall(self, fields):
        e = self.e
        for G in fields:
            t = slots.field_table(self.m, G)
            for path, fn in t.items():
                if fn is None:
                    continue
                w, op = path.split('.')[0], path.split('.')[-1]
                h = self.hook(G, w, op, fn)
                if h is not None:
                    e.callhook[fn] = h
        # routines outside the table that are recognised by name are summarised only after the same
        # analysis of their bodies
        for name, fu in self.m.funcs.items():
            k = RE.match(name)
            if k and not fu.decl and name not in e.callhook and k.group(2) in fields:
                h = self.hook(k.group(2), '_' + k.group(3), k.group(1), name)
                if h is not None:
                    e.callhook[name] = h

    # ---- registry
    def newset(self, G, exps, F, bounds, name='f'):
        k = len(self.sets)
        vs = []
        mem = []
        for i, b in enumerate(bounds):
            v = self.d.fresh(0, b, name)
            if v.p.isconst():
                vs.append(v)
                continue
            (x,), = v.p.d
            self.limb[x] = (k, i)
            mem.append(i)
            vs.append(v)
        self.sets.append((G, tuple(exps), F))
        self.members.append(mem)
        return vs

    def value(self, G, p, where=''):
        """The field value of an integer polynomial over limb unknowns, booleans and data bits."""
        f = self.F[G]
        P = f.p
        groups, rest, data, quad = {}, {}, {}, {}
        A = self.d.atoms
        for m, c in p.d.items():
            if c % P == 0:
                continue
            l = l2 = None
            b = []
            z = None
            for a in m:
                if a in self.limb:
                    if l is not None:
                        if l2 is not None:
                            raise Lost('a product of three limbs outside the field routines')
                        l2 = a
                    else:
                        l = a
                elif a in self.data:
                    if z is not None:
                        raise Lost('a product of input bits')
                    z = a
                elif A[a].lo >= 0 and A[a].hi <= 1 and A[a].E is None:
                    if a not in b:
                        b.append(a)
                elif A[a].E is not None:
                    raise Wrong('wrap', 'a limb may exceed its word: carries are lost before the value is used', where)
                else:
                    raise Lost('operand of unknown origin (%s)' % A[a].name)
            b = tuple(sorted(b))
            if l2 is not None:
                if z is not None:
                    raise Lost('limb times input bit')
                (k, i), (k2, i2) = sorted((self.limb[l], self.limb[l2]))
                g = quad.setdefault((k, k2, b), {})
                g[i, i2] = (g.get((i, i2), 0) + c) % P
            elif l is not None:
                if z is not None:
                    raise Lost('limb times input bit')
                k, i = self.limb[l]
                g = groups.setdefault((k, b), {})
                g[i] = (g.get(i, 0) + c) % P
            elif z is not None:
                g = data.setdefault(b, {})
                g[z] = (g.get(z, 0) + c) % P
            else:
                rest[b] = (rest.get(b, 0) + c) % P
        r = {}
        for b, c in rest.items():
            if c:
                r = f.add(r, {(b, ()): c})
        for (k, b), g in groups.items():
            G2, exps, F = self.sets[k]
            if G2 != G:
                raise Lost('element of the other field')
            n = len(exps)
            nz = {i: c for i, c in g.items() if c}
            if not nz:
                continue
            i0, c0 = next(iter(nz.items()))
            K = c0 * pow(1 << exps[i0], -1, P) % P
            bnd = self.bounds_of(k)
            for i in range(n):
                if i in bnd and g.get(i, 0) != K * pow(2, exps[i], P) % P:
                    raise Wrong('limbs', 'the operand does not combine the limbs of an element with their weights (limb %d)' % i, where)
            t = f.scale(F, K)
            if b:
                t = self.times(f, t, b)
            r = f.add(r, t)
        for (k, k2, b), g in quad.items():
            G1, e1, F1 = self.sets[k]
            G2, e2, F2 = self.sets[k2]
            nz = {i: c for i, c in g.items() if c}
            if not nz:
                continue
            if G1 != G or G2 != G:
                raise Lost('element of the other field')
            (i, j), c0 = next(iter(nz.items()))
            K = c0 * pow((1 if k != k2 or i == j else 2) << (e1[i] + e2[j]), -1, P) % P
            for i in self.bounds_of(k):
                for j in self.bounds_of(k2):
                    if k == k2 and j < i:
                        continue
                    w = K * ((1 if k != k2 or i == j else 2) << (e1[i] + e2[j])) % P
                    if g.get((i, j), 0) != w:
                        raise Wrong('limbs', 'a product does not combine the limbs of its operands with their weights (limbs %d,%d)' % (i, j), where)
            t = f.scale(f.mul(F1, F2), K)
            r = f.add(r, self.times(f, t, b) if b else t)
        for b, g in data.items():
            nz = {a: c for a, c in g.items() if c}
            if not nz:
                continue
            key = frozenset(nz.items())
            v = f.ints.get(key)
            if v is None:
                v = f.ints[key] = f.input('int%d' % len(f.ints))
            r = f.add(r, {(b, ((v, 1),)): 1})
        return r

    def times(self, f, F, b):
        r = {}
        for (b2, m), c in F.items():
            bb = tuple(sorted(set(b2) | set(b)))
            x = (r.get((bb, m), 0) + c) % f.p
            if x:
                r[(bb, m)] = x
            else:
                r.pop((bb, m), None)
        return r

    def bounds_of(self, k):
        return self.members[k]

    # ---- loops that carry elements in registers or in place
    def loop_hook(self, fr, head, n, ent):
        mem, ov, phis = ent
        st = fr.__dict__.setdefault('sem_loops', {}) if hasattr(fr, '__dict__') else self.loops.setdefault((id(fr), fr.f.name), {})
        if n == 0:
            rec = st[head] = []
            by = {}
            for k, v in phis.items():
                xs = v.e if isinstance(v, Vec) and v.ew == 64 else [v] if isinstance(v, V) else ()
                for j, x in enumerate(xs):
                    if isinstance(x, V) and x.p is not None and len(x.p.d) == 1:
                        (m, c), = x.p.d.items()
                        if c == 1 and len(m) == 1 and m[0] in self.limb:
                            s, i = self.limb[m[0]]
                            by.setdefault(s, {})[i] = (k, j if isinstance(v, Vec) else None)
            for s, mp in by.items():
                if all(i in mp for i in self.bounds_of(s)):
                    rec.append((self.sets[s][0], self.sets[s][1], mp))
            return
        for G, exps, mp in st.get(head, ()):
            ls = {}
            for i, (k, j) in mp.items():
                v = phis.get(k)
                x = v.e[j] if j is not None and isinstance(v, Vec) and v.ew == 64 else v if j is None else None
                if not isinstance(x, V) or x.p is None:
                    ls = None
                    break
                ls[i] = self.d.nu(x, 64)
            if not ls or not self.heavy(ls.values()):
                continue
            p = ZERO
            for i, v in ls.items():
                p = p.add(v.p.scale(1 << exps[i]))
            F = self.value(G, p, fr.f.name)
            vs = self.newset(G, exps, F, [ls[i].hi if i in ls else 0 for i in range(len(exps))])
            for i, (k, j) in mp.items():
                if j is None:
                    phis[k] = vs[i]
                else:
                    phis[k] = Vec(64, [vs[i] if q == j else x for q, x in enumerate(phis[k].e)])
        for (o, off), (G, rep) in list(self.places.items()):
            ob = mem.objs.get(o)
            if ob is None:
                continue
            for e in range(rep.n):
                ls = [ob.cells.get(off + lo) for lo, ex in rep.limbs[e]]
                if any(c is None or c[0] != 8 or not isinstance(c[1], V) or c[1].p is None for c in ls):
                    break
                ls = [c[1] for c in ls]
                if not any(len(m) > 1 and sum(a in self.limb for a in m) > 1 for l in ls for m in l.p.d):
                    break
                ls = [self.d.nu(l, 64) for l in ls]
                F = self.value(G, val(rep, ls, e), fr.f.name)
                vs = self.newset(G, [ex for _, ex in rep.limbs[e]], F, [l.hi for l in ls])
                w = mem.w(o)
                for (lo, ex), v in zip(rep.limbs[e], vs):
                    self.e.wr(w, off + lo, 8, v)

    def heavy(self, ls):
        A = self.d.atoms
        return any(A[a].E is not None or len(m) > 1 for l in ls for m in l.p.d for a in m)

    # ---- operands
    def loc(self, p):
        if not isinstance(p, Ptr):
            raise Lost('field operand is not a resolved pointer')
        o, off = p.one()
        if o is None or not off.isc():
            raise Lost('field operand at an unknown address')
        return o, off.lo

    def get(self, mem, p, rep, G, e=0, ins=None):
        """(value, limb bounds) of element e of the operand at p"""
        o, off = self.loc(p)
        ob = self.e.getobj(mem, o)
        if ob is None:
            raise Lost('operand object %s is gone' % o)
        ls = []
        if e == 0:
            self.places[o, off] = (G, rep)
        for lo, ex in rep.limbs[e]:
            v = self.e.rd(ob, off + lo, 8)
            if not isinstance(v, V):
                raise Lost('operand is not an integer')
            if v.u:
                raise Wrong('undefined', 'a field routine reads uninitialised data', loc_str(ins) if ins else '')
            ls.append(self.d.nu(v, 64))
        p = val(rep, ls, e)
        if p is None:
            raise Lost('operand without a relation')
        return self.value(G, p, loc_str(ins) if ins else ''), [self.top(l) for l in ls]

    def top(self, v):
        if v.p is None or len(v.p.d) > 60:
            return v.hi
        l, h = self.d.prange(v.p.d)
        return min(v.hi, h) if l >= 0 else v.hi

    def put(self, mem, p, rep, G, vals, bounds, name='f'):
        o, off = self.loc(p)
        ob = mem.w(o)
        if isinstance(ob.size, int) and off + rep.size > ob.size:
            raise Wrong('bounds', 'a field routine writes past its destination', '')
        for e, F in enumerate(vals):
            vs = self.newset(G, [ex for _, ex in rep.limbs[e]], F, bounds[e] if isinstance(bounds[0], list) else bounds, name)
            for (lo, ex), v in zip(rep.limbs[e], vs):
                self.e.wr(ob, off + lo, 8, v)

    def overlap(self, args, rep, ins):
        """operands are equal or disjoint"""
        ls = [self.loc(a) for a in args]
        for i, (o, x) in enumerate(ls):
            for o2, y in ls[:i]:
                if o == o2 and x != y and abs(x - y) < rep.size:
                    raise Wrong('overlap', 'operands of a field routine partly overlap', loc_str(ins) if ins else '')

    # ---- hooks
    def hook(self, G, w, op, fn):
        f = self.F[G]
        rep = REPS[G][w]
        full = rep.full
        M64 = (1 << 64) - 1
        nw = len(rep.widths)

        def seen(ins):
            self.e.count('field routine calls')
            f.site = '%s in %s' % (loc_str(ins) if ins else '?', self.e.stack[-1] if self.e.stack else '?')
            k = (G + '.' + w.lstrip('_') + '.' + op)
            self.calls[k] = self.calls.get(k, 0) + 1
            if full or op in ('ser', 'unser'):
                self.used.add((G, w, op))

        if full:
            def bin_(mem, args, ins, r3, ro, fun, k=1):
                seen(ins)
                self.overlap([a for a in args[:3]] if ro is r3 else args[1:3], rep, ins)
                out = []
                for i in range(k):
                    x, _ = self.get(mem, args[1], r3, G, i, ins)
                    y, _ = self.get(mem, args[2], r3, G, i, ins)
                    out.append(fun(x, y))
                self.put(mem, args[0], ro, G, out, [M64] * len(ro.widths))
                return C(0)

            def un_(mem, dst, src, ri, ro, fun, ins, k=1):
                seen(ins)
                out = []
                for i in range(k):
                    x, _ = self.get(mem, src, ri, G, i, ins)
                    out.append(fun(x))
                self.put(mem, dst, ro, G, out, [M64] * len(ro.widths))
                return C(0)
            sq = lambda x: f.mul(x, x)
            if op == 'mul':
                return lambda e, mem, a, ins: bin_(mem, a, ins, rep, rep, f.mul)
            if op == 'add':
                return lambda e, mem, a, ins: bin_(mem, a, ins, rep, rep, f.add)
            if op == 'sub':
                return lambda e, mem, a, ins: bin_(mem, a, ins, rep, rep, lambda x, y: f.add(x, y, -1))
            if op == 'sqr':
                return lambda e, mem, a, ins: un_(mem, a[0], a[0], rep, rep, sq, ins)
            if op == 'neg':
                return lambda e, mem, a, ins: un_(mem, a[0], a[0], rep, rep, lambda x: f.scale(x, -1), ins)
            if op == 'cmp':
                return None
            if op == 'mula24':
                return lambda e, mem, a, ins: un_(mem, a[0], a[1], rep, rep, lambda x: f.scale(x, l0.A24[G]), ins)
            if op in ('intmul', 'intmul2'):
                k = 2 if op[-1] == '2' else 1
                return lambda e, mem, a, ins: bin_(mem, a, ins, multi(rep, k), wide(rep, k), f.mul, k)
            if op in ('intsqr', 'intsqr2'):
                k = 2 if op[-1] == '2' else 1
                return lambda e, mem, a, ins: un_(mem, a[0], a[1], multi(rep, k), wide(rep, k), sq, ins, k)
            if op in ('reduce', 'reduce2'):
                k = 2 if op[-1] == '2' else 1
                return lambda e, mem, a, ins: un_(mem, a[0], a[1], wide(rep, k), multi(rep, k), lambda x: x, ins, k)
        if op in ('mul', 'intmul'):
            def h(e, mem, a, ins):
                seen(ins)
                self.overlap(a[:3], rep, ins)
                xs = [self.get(mem, a[1], rep, G, i, ins) for i in range(rep.n)]
                ys = [self.get(mem, a[2], rep, G, i, ins) for i in range(rep.n)]
                us = (operand([b for _, b in xs], rep), operand([b for _, b in ys], rep))
                bs = self.inst(fn, G, w, op, us, ins)
                self.put(mem, a[0], rep, G, [f.mul(x[0], y[0]) for x, y in zip(xs, ys)], bs[0])
                return C(0)
            return h
        if op in ('sqr', 'intsqr', 'compress', 'compressfast', 'compress2', 'new_compressfast', 'new_compressfast2'):
            k = 2 if op[-1] == '2' else 1

            def h(e, mem, a, ins):
                seen(ins)
                ins_ = [[self.get(mem, a[j], rep, G, i, ins) for i in range(rep.n)] for j in range(k)]
                us = tuple(operand([b for _, b in xs], rep) for xs in ins_)
                bs = self.inst(fn, G, w, op, us, ins)
                for j in range(k):
                    self.put(mem, a[j], rep, G, [f.mul(x[0], x[0]) if 'sqr' in op else x[0] for x in ins_[j]], bs[j])
                return C(0)
            return h
        if op == 'ser':
            def h(e, mem, a, ins):
                seen(ins)
                xs = [self.get(mem, a[1], rep, G, i, ins) for i in range(rep.n)]
                if not full:
                    u = max(ratios([b for _, b in xs], rep.widths))
                    lim = 3.2 if G == 'Fp25519' else 5.1
                    if u > lim:
                        raise Wrong('bounds', 'serialisation of an element whose limbs reach %.2f units (specified up to %.1f)' % (u, lim), loc_str(ins) if ins else '')
                nbw = rep.nbytes // 8
                ro = Rep('bytes', rep.p, rep.n, rep.nbytes * rep.n, [[(rep.nbytes * q + 8 * i, 64 * i) for i in range(nbw)] for q in range(rep.n)], [64] * nbw, True)
                n0 = len(self.sets)
                self.put(mem, a[0], ro, G, [x[0] for x in xs], [M64] * (nbw - 1) + [f.p >> (64 * nbw - 64)], 'ser')
                for q in range(n0, len(self.sets)):
                    self.canon[q] = True
                return C(0)
            return h
        if op == 'unser':
            def h(e, mem, a, ins):
                seen(ins)
                nbw = rep.nbytes // 8
                ri = Rep('bytes', rep.p, rep.n, rep.nbytes * rep.n, [[(rep.nbytes * q + 8 * i, 64 * i) for i in range(nbw)] for q in range(rep.n)], [64] * nbw, True)
                xs = [self.get(mem, a[1], ri, G, i, ins) for i in range(rep.n)]
                self.put(mem, a[0], rep, G, [x[0] for x in xs], [M64] * nw if full else [(1 << k) - 1 for k in rep.widths])
                return C(0)
            return h
        return None

    def inst(self, fn, G, w, op, us, ins):
        bad, bs = instance(self.m, self.cfg, fn, G, w, op, us)
        if bad:
            raise Wrong('bounds', '%s is called with operand limbs up to %s units, for which %s' % (fn, '/'.join('%.2f' % max(max(x) if isinstance(x, tuple) else x for x in u) for u in us), bad[1]), loc_str(ins) if ins else '')
        return bs

    # ---- results
    def canonical(self, mem, oname, off, G):
        """Value of the canonical bytes stored at (object, offset), or None."""
        n = (32 if G == 'Fp25519' else 56) // 8
        o = mem.objs[oname]
        k = None
        for i in range(n):
            v = self.d.nu(self.e.rd(o, off + 8 * i, 8), 64)
            if v.p is None or len(v.p.d) != 1:
                return None
            (mon, c), = v.p.d.items()
            if c != 1 or len(mon) != 1 or mon[0] not in self.limb:
                return None
            s, j = self.limb[mon[0]]
            if j != i or (k is not None and s != k) or s not in self.canon:
                return None
            k = s
        return self.sets[k][2]


def bitparam(sem, mem, name, nbytes, data, taint=0):
    """A byte buffer given as single bits; data: bits are read as an integer, otherwise as booleans."""
    e, d = sem.e, sem.d
    o = Obj(name, nbytes, 'param', 'input')
    o.info = 'argument ' + name
    mem.add(o)
    bits = []
    for i in range(nbytes):
        p = {}
        for j in range(8):
            a = d.atom(0, 1, '%s.%d' % (name, 8 * i + j))
            bits.append(a)
            if data:
                sem.data.add(a)
            p[(a,)] = 1 << j
        o.cells[i] = (1, V(0, 255, Poly(p), 255, taint))
    return Ptr({name: C(0)}), bits
