"""Abstract interpreter over the IR: one joined state per program point, loops unrolled while their
control is decided by constants and otherwise iterated to a fixpoint with widening."""
import sys
import re
from dom import V, Ptr, Vec, C, Poly, Dom, pconst, ZERO
from ir import loc_str
import x86
from x86 import Unsupported

sys.setrecursionlimit(200000)
SECRET = 1
MAXC = 8


class Obj:
    __slots__ = ('name', 'size', 'kind', 'ro', 'cells', 'default', 'align', 'image', 'relocs', 'taint', 'weak', 'lohi', 'info', 'frame', 'fill')

    def __init__(self, name, size, kind, default='undef', ro=False, align=1, taint=0):
        self.name, self.size, self.kind, self.default, self.ro, self.align, self.taint = name, size, kind, default, ro, align, taint
        self.cells = {}
        self.image = None
        self.relocs = None
        self.weak = None
        self.lohi = None
        self.info = None
        self.frame = None
        self.fill = None      # (start, taint): everything from start to the end has been written

    def clone(self):
        o = Obj(self.name, self.size, self.kind, self.default, self.ro, self.align, self.taint)
        o.cells = dict(self.cells)
        o.image, o.relocs, o.lohi, o.info, o.frame = self.image, self.relocs, self.lohi, self.info, self.frame
        o.weak = self.weak
        o.fill = self.fill
        return o


class Mem:
    __slots__ = ('objs', 'own', 'facts', 'gate')

    def __init__(self):
        self.gate = ()          # undecided conditions under which this state is reached
        self.objs = {}
        self.own = set()
        self.facts = ()

    def copy(self):
        m = Mem()
        m.facts = self.facts
        m.gate = self.gate
        m.objs = dict(self.objs)
        self.own = set()
        return m

    def add(self, o):
        self.objs[o.name] = o
        self.own.add(o.name)

    def w(self, name):
        o = self.objs[name]
        if name not in self.own:
            o = o.clone()
            self.objs[name] = o
            self.own.add(name)
        return o


class Event:
    def __init__(self, kind, msg, ins, stack, extra=None):
        self.kind, self.msg, self.extra = kind, msg, extra
        self.loc = loc_str(ins) if ins else '?'
        self.fn = stack[-1] if stack else '?'
        self.stack = tuple(stack)

    def key(self):
        return (self.kind, self.fn, self.loc, self.msg)

    def __repr__(self):
        return '%s: %s in %s at %s (via %s)' % (self.kind, self.msg, self.fn, self.loc, ' > '.join(self.stack))


class Bottom(Exception):
    pass


class Engine:
    def __init__(self, module, dom=None, max_undecided=4, max_iter=20000):
        self.bitloads = False      # read loaded words as sums of single bits
        self.bitaddr = {}
        self.m = module
        self.dom = dom or Dom()
        self.events = {}
        self.stack = []
        self.nframe = 0
        self.inputs = {}
        self.max_undecided = max_undecided
        self.max_iter = max_iter
        self.max_counted = 700
        self.deadpaths = set()
        self.multi = None
        self.widening_ok = True
        self.nins = 0
        self.funcs_seen = {}
        self.callhook = {}     # name -> fn(engine, mem, args, ins) -> ret | NotImplemented
        self.frame_exit = None
        self.frame_entry = None
        self.access_hook = None
        self.loop_hook = None
        self.oracle = None
        self.memcpy_hook = None
        self.widening = 0
        self.budget = None
        self.counts = {}
        self.rangecache = {}
        self.trackwrap = False
        self.branch_facts = False
        self.asm_seen = {}
        self.scrub = None

    # ------------------------------------------------------------------ events
    def ev(self, kind, msg, ins, extra=None):
        e = Event(kind, msg, ins, self.stack, extra)
        k = e.key()
        if k not in self.events:
            self.events[k] = e

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ------------------------------------------------------------------ memory
    def getobj(self, mem, name):
        o = mem.objs.get(name)
        if o is None:
            o = self.mkglobal(name)
            if o is not None:
                mem.objs[name] = o
        return o

    def mkglobal(self, name):
        g = self.m.globals.get(name)
        if g is None:
            return None
        c = getattr(self, '_gc', None)
        if c is None:
            c = self._gc = {}
        if name in c:
            return c[name]
        o = Obj(name, g['size'], 'global', 'image' if not g['decl'] else 'unknown', bool(g['const']), g['align'] or 1)
        img = bytearray(g['size'])
        rel = {}
        for e in g.get('init', []):
            if e[0] == 'i':
                n = int(e[3]) & ((1 << (8 * e[2])) - 1)
                img[e[1]:e[1] + e[2]] = n.to_bytes(e[2], 'little')
            elif e[0] == 'b':
                img[e[1]:e[1] + e[2]] = bytes.fromhex(e[3])
            elif e[0] == 'p':
                rel[e[1]] = (e[2], e[3])
            elif e[0] in 'zu':
                pass
            else:
                rel[e[1]] = ('?', 0)
        o.image, o.relocs = bytes(img), rel
        if g['decl']:
            self.ev('extern-global', 'external object ' + name, None)
        c[name] = o
        return o

    def default(self, o, off, size):
        """Value of size bytes at off that no store has reached."""
        d = self.dom
        if o.default == 'undef':
            if o.fill is not None and off >= o.fill[0]:
                return d.top(8 * size, o.fill[1], False, 'copy')
            return d.top(8 * size, 0, True, 'undef')
        if o.default == 'zero':
            return C(0)
        if o.default == 'image':
            if o.relocs and off in o.relocs:
                n, a = o.relocs[off]
                return Ptr({n: C(a)}) if n is not None else C(0)
            return C(int.from_bytes(o.image[off:off + size], 'little'))
        if o.default == 'input':
            return self.input_read(o, off, size)
        return d.top(8 * size, o.taint, False, o.name)

    def input_read(self, o, off, size):
        cells = self.inputs.setdefault(o.name, {})
        c = cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        return self.compose(cells, off, size, lambda f, n: self.input_new(o, cells, f, n))

    def input_new(self, o, cells, f, n):
        h = (1 << (8 * n)) - 1
        lo = 0
        if o.lohi:
            b = o.lohi(f, n)
            if b:
                lo, h = b
        v = self.dom.fresh(lo, h, '%s+%d' % (o.name, f), o.taint(f) if callable(o.taint) else o.taint)
        cells[f] = (n, v)
        return v

    def compose(self, cells, off, size, gap):
        """Read [off,off+size) from cells; gaps come from gap(offset,len)."""
        d = self.dom
        parts = []
        end = off + size
        pos = off
        # first cell overlapping off
        start = None
        for b in range(off, off - MAXC, -1):
            c = cells.get(b)
            if c is not None:
                if b + c[0] > off:
                    start = b
                break
        while pos < end:
            c = None
            if start is not None:
                b = start
                c = cells[b]
                start = None
            else:
                b = pos
                c = cells.get(pos)
            if c is not None:
                n, v = c
                lo = pos - b
                hi = min(n, end - b)
                if lo == 0 and hi == n:
                    parts.append((pos, n, v))
                else:
                    if isinstance(v, Ptr):
                        v = d.top(64, v.t, v.u)
                    parts.append((pos, hi - lo, d.bits(v, 8 * lo, 8 * hi, 8 * n)))
                pos = b + hi
            else:
                e = pos + 1
                while e < end and e not in cells:
                    e += 1
                parts.append((pos, e - pos, gap(pos, e - pos)))
                pos = e
        if len(parts) == 1:
            return parts[0][2]
        r = None
        may = 0
        for p, n, v in parts:
            if isinstance(v, Ptr):
                v = d.top(64, v.t, v.u)
            v = d.nu(v, 8 * n)
            may |= d.mayof(v) << (8 * (p - off))
            x = d.shl(v, 8 * (p - off))
            r = x if r is None else d.add(r, x)
        r = d.simp(r)
        return V(r.lo, r.hi, r.p, may, r.t, r.u) if type(r) is V else r

    def covered(self, o, f):
        return any(f - z in o.cells and o.cells[f - z][0] > z for z in range(MAXC))

    def rd(self, o, off, size):
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if not o.cells and size <= 8:
            return self.weaken(o, off, size, self.default(o, off, size))
        return self.compose(o.cells, off, size, lambda f, n: self.weaken(o, f, n, self.default(o, f, n)))

    def weaken(self, o, off, size, v):
        if o.weak:
            t = 0
            hit = False
            for lo, hi, wt in o.weak:
                if lo < off + size and off < hi:
                    hit = True
                    t |= wt
            if hit:
                vt = v.t if isinstance(v, (V, Ptr)) else 0
                return self.dom.top(8 * size, t | vt, getattr(v, 'u', False), 'weak')
        return v

    def wr(self, o, off, size, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        # split overlapping cells
        for b in range(off - MAXC + 1, off + size):
            c = cells.get(b)
            if c is None:
                continue
            n, x = c
            if b + n <= off:
                continue
            if b < off or b + n > off + size:
                if isinstance(x, Ptr):
                    x = self.dom.top(64, x.t, x.u)
                if b < off:
                    cells[b] = (off - b, self.dom.bits(x, 0, 8 * (off - b), 8 * n))
                else:
                    del cells[b]
                if b + n > off + size:
                    k = off + size - b
                    cells[off + size] = (n - k, self.dom.bits(x, 8 * k, 8 * n, 8 * n))
            else:
                del cells[b]
        cells[off] = (size, v)

    def offs(self, v):
        """Possible constant offsets of an offset value, as a range (lo, hi, step)."""
        if v.isc():
            return v.lo, v.lo, 1
        step = 1
        if v.may is not None and v.may:
            step = v.may & -v.may
        if v.p is not None:
            import math
            g = 0
            for m, c in v.p.d.items():
                if m:
                    g = math.gcd(g, c)
            c0 = v.p.const()
            if g > step:
                lo = v.lo + ((c0 - v.lo) % g)
                return lo, v.hi, g
        return v.lo, v.hi, step

    def access(self, mem, p, size, ins, write):
        """Common checks; returns list of (obj, offV)."""
        if not isinstance(p, Ptr):
            if isinstance(p, V) and p.isc() and p.lo == 0:
                self.ev('null-deref', 'access through a null pointer', ins)
                return []
            self.ev('wild-pointer', 'access through an unresolved pointer', ins)
            return []
        if p.t & SECRET:
            self.ev('secret-address', 'secret-dependent address', ins)
        if p.u:
            self.ev('undef-address', 'address depends on uninitialised data', ins)
        r = []
        for name, off in p.b.items():
            if name == 'null':
                self.ev('maybe-null', 'pointer may be null', ins)
                continue
            o = self.getobj(mem, name)
            if o is None:
                if name in self.m.funcs:
                    self.ev('wild-pointer', 'data access to function ' + name, ins)
                else:
                    self.ev('dangling', 'access to dead object ' + name, ins)
                continue
            self.count('accesses')
            if off.t & SECRET:
                self.ev('secret-address', 'secret-dependent address into ' + self.oname(o), ins)
            if off.u:
                self.ev('undef-address', 'address depends on uninitialised data', ins)
            self.bounds(o, off, size, ins, write)
            if write and o.ro:
                self.ev('ro-write', 'write to read-only ' + self.oname(o), ins)
            if self.access_hook:
                self.hookmem = mem
                self.access_hook(o, off, size, ins, write)
            r.append((o, off))
        return r

    def oname(self, o):
        return (o.info or o.name)

    def bounds(self, o, off, size, ins, write):
        if isinstance(o.size, int):
            if off.lo < 0 or off.hi + size > o.size:
                lo, hi = off.lo, off.hi
                if off.p is not None and not off.isc():
                    lo, hi = max(lo, self.dom.lower(off.p)), min(hi, self.dom.upper(off.p))
                    if lo >= 0 and hi + size <= o.size:
                        return
                    if self.dom.rel and self.dom.relrange(off, 0, o.size - size):
                        return
                self.ev('oob', '%s of %d bytes at offset %s of %s (%s bytes)' % ('write' if write else 'read', size, lo if lo == hi else '[%d..%d]' % (lo, hi), self.oname(o), o.size), ins)
        else:
            if not self.symbound(o, off, size):
                self.ev('oob', '%s of %s bytes at offset %s of %s not shown to be within its symbolic length' % ('write' if write else 'read', size, off, self.oname(o)), ins)

    def symbound(self, o, off, size):
        d = self.dom
        if off.lo < 0:
            if off.p is None or (d.relupper(off.p.scale(-1), 0) > 0 if d.rel else d.lower(off.p) < 0):
                return False
        if off.p is None or o.size.p is None:
            return off.hi + size <= o.size.lo
        q = o.size.p.add(off.p, -1).add(pconst(size), -1)
        if d.rel:
            return d.relupper(q.scale(-1), 0) <= 0
        return d.lower(q) >= 0

    def load(self, mem, p, size, ins):
        acc = self.access(mem, p, size, ins, False)
        res = None
        d = self.dom
        for o, off in acc:
            v = self.load1(o, off, size, p)
            res = v if res is None else d.join(res, v)
        if res is None:
            return d.top(8 * size, 0, True, 'bad')
        if p.t:
            res = self.retag(res, p.t)
        return res

    def retag(self, v, t):
        if type(v) is V:
            return V(v.lo, v.hi, v.p, v.may, v.t | t, v.u)
        if isinstance(v, Ptr):
            return Ptr(v.b, v.t | t, v.u)
        return v

    def load1(self, o, off, size, p):
        d = self.dom
        if off.isc():
            if isinstance(o.size, int) and (off.lo < 0 or off.lo + size > o.size):
                return d.top(8 * size, 0, True, 'oob')
            return self.rd(o, off.lo, size)
        lo, hi, step = self.offs(off)
        t = off.t
        if not isinstance(o.size, int):
            t |= o.taint if isinstance(o.taint, int) else 0
            u = o.default == 'undef' and (o.fill is None or any(not self.covered(o, f) for f in range(max(lo, 0), min(o.fill[0], lo + 4096))) or o.fill[0] > lo + 4096)
            if o.fill is not None:
                t |= o.fill[1]
            for f, (cn, v) in o.cells.items():
                t |= getattr(v, 't', 0)
                u = u or getattr(v, 'u', False)
            for w in o.weak or ():
                t |= w[2]
            return d.top(8 * size, t, u, o.name)
        lo = max(lo, 0)
        hi = min(hi, o.size - size)
        if o.default == 'image' and not o.cells:
            key = (o.name, lo, hi, step, size)
            v = self.rangecache.get(key)
            if v is None:
                mn = mx = None
                may = 0
                for f in range(lo, hi + 1, step):
                    if o.relocs and f in o.relocs:
                        x = self.default(o, f, size)
                        mn = x if mn is None else d.join(mn, x)
                        mx = 'p'
                        continue
                    x = int.from_bytes(o.image[f:f + size], 'little')
                    may |= x
                    if mx != 'p':
                        mn = x if mn is None or x < mn else mn
                        mx = x if mx is None or x > mx else mx
                v = (mn, mx, may)
                self.rangecache[key] = v
            if v[1] == 'p':
                return self.retag(v[0], t)
            if v[0] is None:
                return d.top(8 * size, t, True)
            r = d.fresh(v[0], v[1], o.name, t)
            return V(r.lo, r.hi, r.p, v[2], t, False)
        res = None
        n = (hi - lo) // step + 1 if hi >= lo else 0
        if n > 512:
            # summarise by cells
            t2 = t | (o.taint if isinstance(o.taint, int) else 0)
            u = o.default == 'undef'
            cov = 0
            L, H = None, None
            for f, (cn, v) in o.cells.items():
                if f < hi + size and f + cn > lo:
                    if isinstance(v, Ptr):
                        return d.top(8 * size, t2, True)
                    t2 |= v.t
                    u = u or v.u
                    cov += cn
            if cov >= hi + size - lo:
                u = any(v.u for f, (cn, v) in o.cells.items() if f < hi + size and f + cn > lo)
            return d.top(8 * size, t2, u, o.name)
        for f in range(lo, hi + 1, step):
            v = self.rd(o, f, size)
            res = v if res is None else d.join(res, v)
        if res is None:
            return d.top(8 * size, t, True)
        return self.retag(res, t)

    def store(self, mem, p, v, size, ins):
        acc = self.access(mem, p, size, ins, True)
        if not acc:
            return
        for o, off in acc:
            o = mem.w(o.name)
            if len(acc) == 1 and off.isc():
                if isinstance(o.size, int) and (off.lo < 0 or off.lo + size > o.size):
                    continue
                self.wr(o, off.lo, size, v)
            else:
                self.weakstore(o, off, v, size, ins)

    def weakstore(self, o, off, v, size, ins=None):
        d = self.dom
        und = True
        if o.default == 'undef':
            import libc
            if libc.inhash(ins):
                o.default = 'unknown'
                self.count('hash buffer writes taken to define')
        lo, hi, step = self.offs(off)
        lo = max(lo, 0)
        if isinstance(o.size, int):
            hi = min(hi, o.size - size)
        vt = v.t if isinstance(v, (V, Ptr)) else 0
        vu = v.u if isinstance(v, (V, Ptr)) else False
        for f in sorted(o.cells):
            n, x = o.cells[f]
            if f + n <= lo or f >= hi + size:
                continue
            if n == size and f >= lo and f <= hi and (f - lo) % step == 0 and step >= size:
                o.cells[f] = (n, d.join(x, v))
            else:
                o.cells[f] = (n, d.top(8 * n, vt | x.t | off.t, x.u or vu, 'weak'))
        # regions never stored to
        if o.default == 'undef':
            # keep undefined cells undefined; remember that data may be here
            if isinstance(o.size, int) and hi - lo <= 4096:
                f = lo
                while f <= hi:
                    if step >= size and not any((g in o.cells) for g in range(f, f + size)):
                        w = self.retag(self.dom.top(8 * size, vt | off.t, und, 'weak'), 0)
                        if isinstance(v, Ptr):
                            w = Ptr(dict(v.b), v.t, und or v.u)
                        elif isinstance(v, V):
                            z = d.fresh(v.lo, v.hi, 'weak', vt | off.t, und or v.u)
                            w = z
                        o.cells[f] = (size, w)
                    f += step
                if step < size:
                    o.weak = (o.weak or ()) + ((lo, hi + size, vt | off.t),)
        else:
            o.weak = (o.weak or ()) + ((lo, hi + size, vt | off.t),)

    # ------------------------------------------------------------------ joins
    gating = False

    def gated(self, a, b):
        pass

    def joinmem(self, a, b):
        r = a.copy()
        if a.gate != b.gate:
            k = 0
            while k < len(a.gate) and k < len(b.gate) and a.gate[k] == b.gate[k]:
                k += 1
            r.gate = a.gate[:k]
        if self.dom.rel and a.facts is not b.facts:
            sb = set(b.facts)
            r.facts = tuple(f for f in a.facts if f in sb)
        for n, ob in b.objs.items():
            oa = a.objs.get(n)
            if oa is ob:
                continue
            if oa is None:
                r.objs[n] = ob
                continue
            r.objs[n] = self.joinobj(oa, ob)
            r.own.add(n)
        return r

    def joinobj(self, a, b):
        o = a.clone()
        if a.weak or b.weak:
            w = set(a.weak or ()) | set(b.weak or ())
            o.weak = tuple(sorted(w)[:64]) if len(w) <= 64 else ((min(x[0] for x in w), max(x[1] for x in w), self.ort(w)),)
        if a.default != b.default and 'unknown' in (a.default, b.default):
            o.default = 'unknown'
            a, b = a.clone(), b.clone()
            a.default = b.default = 'unknown'
        if a.fill != b.fill:
            o.fill = None if a.fill is None or b.fill is None else (max(a.fill[0], b.fill[0]), a.fill[1] | b.fill[1])
        ca, cb = a.cells, b.cells
        same = True
        for f, c in cb.items():
            x = ca.get(f)
            if x is None or x[0] != c[0]:
                same = False
                break
        if same and len(ca) == len(cb):
            for f, c in cb.items():
                x = ca[f]
                if x[1] is not c[1]:
                    o.cells[f] = (c[0], self.dom.join(x[1], c[1], o.name))
            return o
        # differing layouts: align on common boundaries
        bounds = set()
        for cs in (ca, cb):
            for f, (n, _) in cs.items():
                bounds.add(f)
                bounds.add(f + n)
        bl = sorted(bounds)
        cells = {}
        cov = lambda cs, f: any((f - k) in cs and cs[f - k][0] > k for k in range(MAXC))
        for f, e in zip(bl, bl[1:]):
            ina, inb = cov(ca, f), cov(cb, f)
            if not ina and not inb:
                continue
            n = e - f
            pos = f
            while n > 0:
                k = min(n, 8)
                x = self.rd(a, pos, k)
                y = self.rd(b, pos, k)
                cells[pos] = (k, self.dom.join(x, y, o.name))
                pos += k
                n -= k
        o.cells = cells
        return o

    def factjoin(self, m, fa, fb):
        """Facts about freshly merged unknowns that hold on both incoming paths."""
        d = self.dom
        if not d.jl:
            return
        cand = []
        more = []
        single = {}
        for x, y, n in d.jl:
            if len(n.d) != 1:
                continue
            for z in (x, y):
                if not z.isconst() or True:
                    cand.append(n.add(z, -1))
                    cand.append(z.add(n, -1))
            (nm, nc), = n.d.items()
            for z, side in ((x, 0), (y, 1)):
                if len(z.d) == 1:
                    (zm, zc), = z.d.items()
                    if zm and zc == nc:
                        single[(side, zm[0])] = nm[0]
        for side, fs in ((0, fa), (1, fb)):
            for f in fs:
                if any((side, v) in single for k in f.d for v in k):
                    q = Poly({tuple(single.get((side, v), v) for v in k): c for k, c in f.d.items()})
                    cand.append(q)
                    more.append((side, q))
        for side, q in more:
            # the same fact with a merged unknown that is constant on this side brought in
            for z in d.jl:
                if len(z[2].d) == 1 and z[side].isconst() and len(cand) < 500:
                    w = z[2].add(z[side], -1)
                    (nm, nc), = z[2].d.items()
                    w = Poly({k: c // nc for k, c in w.d.items()}) if all(c % nc == 0 for c in w.d.values()) else w
                    for k in (1, 2, 4, 8, 16):
                        cand.append(q.add(w, k))
                        cand.append(q.add(w, -k))
        if not cand:
            return
        sa, sb = {}, {}
        for x, y, n in d.jl:
            (nm, nc), = n.d.items()
            if all(c % nc == 0 for c in x.d.values()) and all(c % nc == 0 for c in y.d.values()):
                sa[nm[0]] = Poly({k: c // nc for k, c in x.d.items()})
                sb[nm[0]] = Poly({k: c // nc for k, c in y.d.items()})

        def sub(p, s):
            r = ZERO
            for k, c in p.d.items():
                if len(k) == 1 and k[0] in s:
                    r = r.add(s[k[0]], c)
                else:
                    r = r.add(Poly({k: c}))
            return r
        keep = d.facts
        good = []
        for q in dict.fromkeys(cand):
            q = d.nfact(q)
            if d.prange(q.d)[1] <= 0:
                continue
            d.facts = fa
            if d.relupper(sub(q, sa), 0) > 0:
                continue
            d.facts = fb
            if d.relupper(sub(q, sb), 0) > 0:
                continue
            good.append(q)
            if len(good) > 8:
                break
        d.facts = keep
        if good:
            m.facts = tuple(m.facts) + tuple(g for g in good if g not in m.facts)

    def ort(self, w):
        t = 0
        for x in w:
            t |= x[2]
        return t

    # widening comparison: does b fit in a (intervals, taint, definedness)?
    def fit(self, v, w):
        """v brought back into [-2^w, 2^w) when its representative has left that range."""
        if isinstance(v, V):
            if v.hi >= 1 << w or v.lo < -(1 << w):
                return self.dom.nu(v, w)
        elif isinstance(v, Vec):
            if any(x.hi >= 1 << v.ew or x.lo < -(1 << v.ew) for x in v.e):
                return Vec(v.ew, [self.fit(x, v.ew) for x in v.e])
        return v

    def leqv(self, b, a):
        if a is b:
            return True
        if isinstance(a, V) and isinstance(b, V):
            if self.dom.rel and b.p is not None and not (a.lo <= b.lo and b.hi <= a.hi):
                b = self.dom.clamp(b)
                if self.linked(a, b):
                    # b is a's relation at the next iteration's unknowns, whose ranges are checked on their own
                    l, h = self.dom.prange(a.p.d)
                    l, h = max(l, b.lo), min(h, b.hi)
                    b = V(l, h, b.p, b.may if b.may is None else b.may & ((1 << max(h, 0).bit_length()) - 1), b.t, b.u)
            return a.lo <= b.lo and b.hi <= a.hi and (b.t & ~a.t) == 0 and (a.u or not b.u) and (a.p is None or not (self.dom.pm or self.dom.rel) or self.isfresh(a) or a.p == b.p or self.linked(a, b)) and (a.may is None or (b.lo >= 0 and self.dom.mayof(b) & ~a.may == 0))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return all(o in a.b and self.leqv(v, a.b[o]) for o, v in b.b.items()) and (b.t & ~a.t) == 0 and (a.u or not b.u)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return a.ew == b.ew and all(self.leqv(y, x) for x, y in zip(a.e, b.e))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return all(self.leqv(y, x) for x, y in zip(a, b))
        return False

    assign = None

    def linked(self, a, b):
        """In rel mode: b equals a once the loop's unknowns take the values of the next iteration."""
        if not self.dom.rel or self.assign is None or b.p is None or a.p is None:
            return False
        r = ZERO
        for m, c in a.p.d.items():
            if len(m) == 1 and m[0] in self.assign:
                r = r.add(self.assign[m[0]], c)
            else:
                r = r.add(Poly({m: c}))
        return r == b.p

    def nextvals(self, pairs):
        """Loop unknown -> its next value, from variables that are multiples of one unknown."""
        self.assign = {}
        for a, b in pairs:
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                (o1, a), (o2, b) = a.one(), b.one()
                if o1 is None or o1 != o2:
                    continue
            if isinstance(a, V) and isinstance(b, V) and a.p is not None and b.p is not None and len(a.p.d) == 1:
                (m, c), = a.p.d.items()
                if len(m) == 1 and m[0] >= self.freshmark and m[0] not in self.assign and all(x % c == 0 for x in b.p.d.values()):
                    self.assign[m[0]] = Poly({k: x // c for k, x in b.p.d.items()})

    def isfresh(self, a):
        if len(a.p.d) != 1:
            return False
        (m, c), = a.p.d.items()
        if self.dom.rel:
            return len(m) == 1 and m[0] >= self.freshmark and (c == 1 or self.assign is None or m[0] in self.assign)
        return c == 1 and len(m) == 1 and m[0] >= self.freshmark

    freshmark = 1 << 60

    def widenv(self, a, b, w):
        """a: previous head value, b: new value (already a superset join is computed)."""
        d = self.dom
        if self.leqv(b, a):
            return a
        if isinstance(a, V) and isinstance(b, V):
            lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
            if b.lo < a.lo:
                lo = self.thr(lo, False)
            if b.hi > a.hi:
                hi = self.thr(hi, True)
            may = None
            if lo >= 0 and (a.may is not None or a.isc()) and (b.may is not None or b.isc()):
                m = d.mayof(a) | d.mayof(b)
                z = m & -m if m else 1
                may = ((1 << hi.bit_length()) - 1) & ~(z - 1)
            if d.rel and a.p is not None and self.assign is not None and len(a.p.d) == 1 and self.isfresh(a) and not a.p.isconst():
                (m, c), = a.p.d.items()
                at = d.atoms[m[0]]
                l, h = (-(-lo // c), hi // c) if c > 0 else (-(-hi // c), lo // c)
                at.lo, at.hi = min(at.lo, l), max(at.hi, h)
                return V(lo, hi, a.p, may if a.may is None or may is None else a.may | may, a.t | b.t, a.u or b.u)
            if d.rel and self.linked(a, b):
                return d.clamp(V(lo, hi, a.p, may, a.t | b.t, a.u or b.u))
            if d.rel and not (a.t | b.t) and not (a.u or b.u) and a.p is not None and b.p is not None:
                return V(lo, hi, d.reljoin(a, b, lo, hi, may, 'loop'), may)
            r = d.fresh(lo, hi, 'loop', a.t | b.t, a.u or b.u)
            return V(r.lo, r.hi, r.p, may, r.t, r.u)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            o = dict(a.b)
            for k, v in b.b.items():
                o[k] = self.widenv(o[k], v, 64) if k in o else v
            return Ptr(o, a.t | b.t, a.u or b.u)
        if isinstance(a, Vec) and isinstance(b, Vec):
            ew = min(a.ew, b.ew)
            a, b = d.as_ew(a, ew), d.as_ew(b, ew)
            return Vec(ew, [self.widenv(x, y, ew) for x, y in zip(a.e, b.e)])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(self.widenv(x, y, 64) for x, y in zip(a, b))
        return d.join(a, b)

    THR = sorted({0, 1, -1} | {1 << k for k in range(1, 65)} | {(1 << k) - 1 for k in range(1, 65)} | {-(1 << k) for k in range(0, 64)} | {56, 57, 114, 447, 448, 255, 256, 457, 113, 64, 128, 200, 136, 446, 254, 253})

    COARSE = [-(1 << 63), -(1 << 32), -(1 << 16), -1, 0, 255, 65535, (1 << 32) - 1, (1 << 61), (1 << 63) - 1, (1 << 64) - 1]
    rounds = 0

    def thr(self, x, up):
        import bisect
        T = self.THR if self.rounds <= 12 else self.COARSE
        if up:
            i = bisect.bisect_left(T, x)
            return T[i] if i < len(T) else x * 2
        i = bisect.bisect_right(T, x) - 1
        return T[i] if i >= 0 else x * 2

    def widenmem(self, a, b):
        """returns (mem, changed)"""
        r = a.copy()
        ch = False
        for n, ob in b.objs.items():
            oa = a.objs.get(n)
            if oa is ob:
                continue
            if oa is None:
                r.objs[n] = ob
                continue
            j = self.joinobj(oa, ob)
            oc = j.default != oa.default or j.fill != oa.fill
            if j.weak != oa.weak and set(j.weak or ()) - set(oa.weak or ()):
                oc = True
                if len(j.weak) > 4:
                    j.weak = ((min(x[0] for x in j.weak), max(x[1] for x in j.weak), self.ort(j.weak)),)
                    oc = j.weak != oa.weak
            for f, (k, v) in list(j.cells.items()):
                x = oa.cells.get(f)
                old = x[1] if x and x[0] == k else self.rd(oa, f, k)
                new = self.rd(ob, f, k)
                if self.dom.rel:
                    new = self.fit(new, 8 * k)
                if not self.leqv(new, old):
                    oc = True
                    j.cells[f] = (k, self.widenv(old, new, 8 * k))
                else:
                    j.cells[f] = (k, Ptr(dict(old.b), old.t, old.u) if isinstance(old, Ptr) and old is not new and 'null' in old.b else old)
            if oc:
                ch = True
                r.objs[n] = j
                r.own.add(n)
            else:
                if set(j.cells) != set(oa.cells):
                    r.objs[n] = j
                    r.own.add(n)
        return r, ch

    # ------------------------------------------------------------------ values
    def count_hook(self, n):
        return n

    def ptradd(self, p, i):
        if isinstance(p, Ptr):
            if isinstance(i, V):
                if i.isc() and i.lo == 0:
                    return p
                i = self.dom.ns(i, 64)
                return Ptr({o: self.dom.add(v, i) for o, v in p.b.items()}, p.t | i.t, p.u or i.u)
            return self.dom.top(64)
        if isinstance(i, Ptr):
            return self.ptradd(i, p)
        return self.dom.add(p, i)

    def iszero(self, x, w):
        """V in {0,1}: x == 0 (mod 2^w)"""
        if isinstance(x, Ptr):
            if 'null' not in x.b:
                return C(0)
            return self.dom.fresh(0, 1, 'isnull', x.t, x.u)
        d = self.dom
        y = d.nu(x, w)
        if y.isc():
            return d.tag(C(1 if y.lo == 0 else 0), 0, False)
        if y.lo > 0:
            return d.tag(C(0), y.t, False) if False else C(0)
        if y.hi == 1 and y.p is not None:
            return d.tag(d.sub(C(1), y), y.t, y.u)
        a = getattr(self, '_zc', None)
        if a is None:
            a = self._zc = {}
        if y.p is not None:
            k = y.p
            if k in a:
                return d.tag(a[k], y.t, y.u)
            v = d.fresh(0, 1, 'iszero', y.t, y.u)
            a[k] = v
            return v
        return V(0, 1, None, 1, y.t, y.u)

    def select(self, c, x, y, w):
        """c ? x : y for c in {0,1}"""
        d = self.dom
        if isinstance(c, V) and c.isc():
            r = x if c.lo & 1 else y
            return self.retag(r, c.t) if c.t else r
        if isinstance(x, V) and isinstance(y, V):
            x, y = d.nu(x, w), d.nu(y, w)
            t, u = x.t | y.t | c.t, x.u or y.u or c.u
            if x.isc() and y.isc() and x.lo == y.lo:
                return d.tag(x, t, u)
            p = None
            if d.pm and x.p is not None and y.p is not None and c.p is not None and len(c.p.d) * (len(x.p.d) + len(y.p.d)) < 2000:
                p = y.p.add(c.p.mul(x.p.add(y.p, -1)))
            elif d.pm:
                p = d.fresh(min(x.lo, y.lo), max(x.hi, y.hi), 'sel').p
            may = d.mayof(x) | d.mayof(y)
            return V(min(x.lo, y.lo), max(x.hi, y.hi), p, may, t, u)
        r = d.join(x, y)
        return self.retag(r, c.t) if isinstance(c, V) and c.t else r

    def cmp(self, pred, a, b, w):
        d = self.dom
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            t = a.t | b.t
            if pred in ('eq', 'ne'):
                pa, pb = (a, b) if isinstance(a, Ptr) else (b, a)
                if isinstance(pb, V) and pb.isc() and pb.lo == 0:
                    if 'null' not in pa.b:
                        return C(0 if pred == 'eq' else 1)
                    if set(pa.b) == {'null'}:
                        return C(1 if pred == 'eq' else 0)
                if isinstance(pb, Ptr):
                    o1, v1 = pa.one()
                    o2, v2 = pb.one()
                    if o1 is not None and o1 == o2 and v1.p is not None and v2.p is not None and v1.p.add(v2.p, -1).isconst():
                        e = v1.p == v2.p
                        return C(int(e == (pred == 'eq')))
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                o1, v1 = a.one()
                o2, v2 = b.one()
                if o1 is not None and o1 == o2:
                    return self.cmp('s' + pred[1:], v1, v2, 64)
            return d.fresh(0, 1, 'pcmp', t)
        t, u = a.t | b.t, a.u or b.u
        if pred in ('eq', 'ne'):
            x, y = d.nu(a, w), d.nu(b, w)
            r = None
            if x.hi < y.lo or y.hi < x.lo:
                r = C(0)
            elif x.isc() and y.isc():
                r = C(int(x.lo == y.lo))
            elif x.p is not None and x.p == y.p and not x.u:
                r = C(1)
            elif (x.isc() or y.isc()) and d.pm:
                c, z = (x, y) if x.isc() else (y, x)
                if z.may is not None and c.lo & ~d.mayof(z):
                    r = C(0)
                else:
                    r = self.iszero(d.sub(z, c), w) if c.lo == 0 or z.hi <= 1 else None
            if r is None:
                dd = None
                if d.pm and x.p is not None and y.p is not None:
                    dd = d.sub(x, y)
                    if dd.lo > 0 or dd.hi < 0:
                        r = C(0)
                    else:
                        r = self.iszero(dd, w)
                else:
                    r = d.fresh(0, 1, 'eq', t, u)
            if r.isc():
                return C(r.lo if pred == 'eq' else 1 - r.lo)
            r = d.tag(r, t, u)
            return r if pred == 'eq' else d.sub(C(1), r)
        sgn = pred[0] == 's'
        x, y = (d.ns(a, w), d.ns(b, w)) if sgn else (d.nu(a, w), d.nu(b, w))
        op = pred[1:]
        if op in ('gt', 'ge'):
            x, y = y, x
            op = {'gt': 'lt', 'ge': 'le'}[op]
        if op == 'lt':
            if x.hi < y.lo:
                return C(1)
            if x.lo >= y.hi:
                return C(0)
        else:
            if x.hi <= y.lo:
                return C(1)
            if x.lo > y.hi:
                return C(0)
        if d.rel and x.p is not None and y.p is not None:
            q = x.p.add(y.p, -1)
            k = 1 if op == 'le' else 0
            if d.relupper(q, k - 1) < k:
                return C(1)
            if d.relupper(q.scale(-1), -k) <= -k:
                return C(0)
        if d.pm and x.p is not None and y.p is not None and not x.u and not y.u:
            q = x.p.add(y.p, -1)
            if len(q.d) < 400:
                k = 1 if op == 'le' else 0
                if d.upper(q) < k:
                    return C(1)
                if d.lower(q) >= k:
                    return C(0)
                # borrow atom: x < y  <=>  floor((x-y)/2^w) = -1
                n = x.p.add(y.p, -1) if op == 'lt' else x.p.add(y.p, -1).add(pconst(-1))
                f = d.floor(n, w, x.lo - y.hi - (op != 'lt'), x.hi - y.lo, 'lt')
                return V(0, 1, f.scale(-1), 1, t, u)
        return d.fresh(0, 1, 'cmp', t, u)

    # ------------------------------------------------------------------ running
    def call(self, name, args, mem, ins=None, multi=False):
        self.multi = None
        h = self.callhook.get(name)
        if h is not None:
            r = h(self, mem, args, ins)
            if r is not NotImplemented:
                return r, mem
        f = self.m.funcs.get(name)
        if f is None or f.decl:
            import libc
            return libc.call(self, mem, name, args, ins), mem
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        fr = Frame(self, f.prep())
        r = fr.run(args, mem, ins)
        if self.multi and not multi:
            outs, self.multi = self.multi, None
            return fr.joinouts(outs)
        return r


def retblock(f):
    """The block every return of an integer goes through, if it is small and outside loops."""
    r = getattr(f, '_rb', -1)
    if r != -1:
        return r
    r = None
    rs = [b for b in range(len(f.body)) if f.term[b]['op'] == 'ret']
    if len(rs) == 1 and f.phis[rs[0]] and len(f.body[rs[0]]) <= 24 and f.term[rs[0]].get('A') and f.phis[rs[0]][0]['ty'][0] == 'i' and not any(x['op'] == 'call' and not x.get('fn', '').startswith('llvm.') for x in f.body[rs[0]]):
        if not any(isinstance(x, tuple) and inwto(x, rs[0]) for x in f.wto):
            r = rs[0]
    f._rb = r
    return r


def inwto(x, b):
    return x[0] == b or any(inwto(y, b) if isinstance(y, tuple) else y == b for y in x[1])


def comp_operand(o):
    k = o[0]
    if k == 'c':
        return ('k', C(int(o[1])))
    if k == 'v':
        return ('v', o[1])
    if k == 'a':
        return ('v', -1 - o[1])
    if k == 'g':
        return ('k', Ptr({o[1]: C(o[2])}))
    if k == 'null':
        return ('k', C(0))
    if k == 'undef':
        return ('k', 'undef')
    if k in ('cv', 'cs'):
        return ('cv', [comp_operand(x) for x in o[1]])
    return ('?', o)


def tw(ty):
    """bit width of a scalar type"""
    if ty[0] == 'i':
        return ty[1]
    if ty[0] == 'p':
        return 64
    raise Unsupported('type %r' % (ty,))


def prepare(f):
    if getattr(f, '_comp', False):
        return
    f._comp = True
    for ins in (i for b in f.blocks for i in b):
        if 'args' in ins:
            ins['A'] = [comp_operand(o) for o in ins['args']]
        if 'inc' in ins:
            ins['I'] = {b: comp_operand(o) for b, o in ins['inc']}
        if 'idx' in ins and ins['op'] == 'getelementptr':
            ins['X'] = [(comp_operand(o), s, w) for o, s, w in ins['idx']]
        if 'fp' in ins:
            ins['F'] = comp_operand(ins['fp'])


class Frame:
    def __init__(self, eng, f):
        self.e, self.f = eng, f
        self.d = eng.dom
        self.env = {}
        prepare(f)
        eng.nframe += 1
        self.id = eng.nframe
        self.locals = []
        self.exits = {}
        self.rb = retblock(f) if eng.dom.rel else None
        self.base = {}
        self.ov = {}

    def val(self, o, ty=None):
        k = o[0]
        if k == 'v':
            return self.env[o[1]]
        if k == 'k':
            v = o[1]
            if v == 'undef':
                return self.undef(ty)
            return v
        if k == 'a':
            return self.args[o[1]]
        if k == 'cv':
            if ty and ty[0] == 'v':
                return Vec(tw(ty[2]), [self.val(x, ty[2]) for x in o[1]])
            return tuple(self.val(x, ty[1][i] if ty else None) for i, x in enumerate(o[1]))
        raise Unsupported('operand %r' % (o,))

    def undef(self, ty):
        if ty is None:
            return self.d.top(64, 0, True, 'undef')
        if ty[0] == 'v':
            w = tw(ty[2])
            return Vec(w, [self.d.top(w, 0, True, 'undef') for _ in range(ty[1])])
        if ty[0] == 's':
            return tuple(self.undef(x) for x in ty[1])
        return self.d.top(tw(ty), 0, True, 'undef')

    def run(self, args, mem, ins):
        e = self.e
        self.args = args
        if e.frame_entry:
            e.frame_entry(e, self, mem, args)
        for k, v in enumerate(args):
            self.env[-1 - k] = v
        e.stack.append(self.f.name)
        e.funcs_seen[self.f.name] = e.funcs_seen.get(self.f.name, 0) + 1
        try:
            pend = {0: [mem, {}, {}]}
            self.items(self.f.wto, pend, None)
            if not self.exits:
                raise Bottom('no return from ' + self.f.name)
            outs = list(self.exits.values())
            e.multi = None
            for mem, ret in outs:
                if e.frame_exit:
                    e.frame_exit(e, self, mem, ret)
                for n in self.locals:
                    mem.objs.pop(n, None)
                    mem.own.discard(n)
        finally:
            e.stack.pop()
        mem, ret = outs[0]
        if len(outs) > 1:
            e.multi = [(r, m) for m, r in outs]
        return ret, mem

    def joinouts(self, outs):
        e = self.e
        ret, mem = outs[0]
        mem = mem.copy()
        for r, m in outs[1:]:
            mem = e.joinmem(mem, m)
            ret = self.d.join(ret, r)
        return ret, mem

    # pend: block -> [mem, -, {phi id: value}]
    def push(self, pend, frm, to, mem, ov=None):
        phis = {}
        if ov is None:
            ov = self.ov
        for p in self.f.phis[to]:
            phis[p['id']] = self.val(p['I'][frm], p['ty'])
        cur = pend.get(to)
        if to == self.rb and self.inst == 0:
            # the return block is entered once per way of getting there
            if self.outside is not None and to not in self.outside:
                self.left = True
            keep = (self.mem, self.ov, self.outside, self.left, dict(self.base))
            env = dict(self.env)
            self.outside = None
            self.block(to, {to: [mem, ov, phis]})
            self.env.update(env)
            self.mem, self.ov, self.outside, self.left, self.base = keep
            if self.d.rel:
                self.d.facts = self.mem.facts
            return
        if cur is None:
            pend[to] = [mem, ov, phis]
        else:
            d = self.d
            if d.rel:
                d.jl = []
                cur[2] = {k: self.nonneg(v, cur[0].facts) for k, v in cur[2].items()}
                phis = {k: self.nonneg(v, mem.facts) for k, v in phis.items()}
            self.e.gated(cur[0].gate, mem.gate)
            for k, v in phis.items():
                phis[k] = d.join(cur[2][k], v)
            m = self.e.joinmem(cur[0], mem)
            self.e.gated((), ())
            if d.rel:
                self.e.factjoin(m, cur[0].facts, mem.facts)
                d.jl = None
            o2 = cur[1]
            pend[to] = [m, {k: v for k, v in ov.items() if o2.get(k) is v} if ov and o2 else {}, phis]
        if self.outside is not None and to not in self.outside:
            self.left = True

    outside = None
    inst = 0
    left = False
    counted = False     # some exit of the current loop was decided to stay in this iteration
    ov = {}

    def items(self, items, pend, loop):
        for it in items:
            if isinstance(it, tuple):
                self.loop(it, pend)
            elif it in pend:
                self.block(it, pend)

    def blocks_of(self, it):
        c = getattr(self.f, '_bo', None)
        if c is None:
            c = self.f._bo = {}
        h = it[0]
        if h not in c:
            s = {h}

            def go(xs):
                for x in xs:
                    if isinstance(x, tuple):
                        s.add(x[0])
                        go(x[1])
                    else:
                        s.add(x)
            go(it[1])
            c[h] = s
        return c[h]

    def loop(self, it, pend):
        head, sub = it
        if head not in pend:
            return
        blocks = self.blocks_of(it)
        e = self.e
        saved = (self.outside, self.left, self.counted)
        und = 0
        n = 0
        anyleft = False
        while head in pend:
            self.outside, self.left = blocks, False
            self.counted = False
            if e.loop_hook is not None:
                e.loop_hook(self, head, n, pend[head])
            self.block(head, pend)
            self.items(sub, pend, it)
            n += 1
            if self.left:
                anyleft = True
                if head in pend:
                    und += 1
                    if und >= e.max_undecided and not (self.counted and n < e.max_counted):
                        self.fix(it, pend, blocks)
                        anyleft = True
                        break
            if n > e.max_iter:
                raise Unsupported('loop in %s does not end after %d abstract iterations' % (self.f.name, n))
        self.outside, self.left, self.counted = saved
        # exits of this loop that also leave the enclosing one
        if anyleft and self.outside is not None:
            self.left = self.left or any(b not in self.outside for b in pend)
        e.count('loops')

    def fix(self, it, pend, blocks):
        head, sub = it
        e = self.e
        cur = pend.pop(head)
        oldmark = e.freshmark
        e.freshmark = len(self.d.atoms)
        e.widening += 1
        n = 0
        phis = self.f.phis[head]
        while True:
            n += 1
            if n > 200:
                raise Unsupported('fixpoint of loop in %s does not converge' % self.f.name)
            outs = {b: v for b, v in pend.items()}
            e.rounds = n
            # head state with fresh identities for its phis
            # refinements of values from outside the loop stay true in it
            pend[head] = [cur[0].copy(), self.outer(cur[1], blocks), dict(cur[2])]
            self.outside, self.left = blocks, False
            self.block(head, pend)
            self.items(sub, pend, it)
            if head not in pend:
                break
            new = pend.pop(head)
            e.rounds = n
            if self.d.rel:
                if n == 1:
                    cur[2] = {k: self.nonneg(v, cur[0].facts) for k, v in cur[2].items()}
                new[2] = {k: self.nonneg(e.fit(v, 64), new[0].facts) for k, v in new[2].items()}
                pairs = [(cur[2][p['id']], new[2][p['id']]) for p in phis]
                for on, ob in new[0].objs.items():
                    oa = cur[0].objs.get(on)
                    if oa is not None and oa is not ob:
                        pairs += [(oa.cells[f][1], c[1]) for f, c in ob.cells.items() if f in oa.cells and oa.cells[f][0] == c[0] and oa.cells[f][1] is not c[1]]
                e.nextvals(pairs)
                self.d.jl = []
            ch = False
            ph = {}
            for p in phis:
                k = p['id']
                a, b = cur[2][k], new[2][k]
                if e.leqv(b, a):
                    ph[k] = Ptr(dict(a.b), a.t, a.u) if isinstance(a, Ptr) and a is not b else a
                else:
                    ch = True
                    ph[k] = e.widenv(a, b, 64)
            m, ch2 = e.widenmem(cur[0], new[0])
            ch = ch or ch2
            if self.d.rel:
                m.facts = cur[0].facts
                self.d.jl = None
                e.assign = None
            if not ch:
                break
            # discard exits computed from a non-stable head (they are covered by later ones)
            for b in list(pend):
                if b in outs:
                    pend[b] = outs[b]
                else:
                    del pend[b]
            cur = [m, cur[1], ph]
        e.widening -= 1
        e.freshmark = oldmark

    # ------------------------------------------------------------------ blocks
    def block(self, b, pend):
        mem, ov, phis = pend.pop(b)
        env = self.env
        base = self.base
        for k, v in base.items():
            env[k] = ov.get(k, v)
        for k in phis:
            if k in base:
                del base[k]
                ov = {a: c for a, c in ov.items() if a != k}
        env.update(phis)
        self.ov = ov
        self.mem = mem
        e = self.e
        if self.d.rel:
            self.d.facts = mem.facts
        if e.budget is not None:
            e.budget -= len(self.f.body[b])
            if e.budget < 0:
                raise Unsupported('analysis budget exhausted in ' + self.f.name)
        self.rest(b, 0, pend)

    def rest(self, b, k0, pend, var=False):
        e = self.e
        env = self.env
        base = self.base
        body = self.f.body[b]
        for k in range(k0, len(body)):
            ins = body[k]
            e.nins += 1
            h = OPS.get(ins['op'])
            if h is None:
                raise Unsupported('opcode ' + ins['op'])
            i = ins['id']
            try:
                env[i] = h(self, ins)
            except Bottom as ex:
                # this path ends here: abort(), or a call that never returns
                e.deadpaths.add(str(ex))
                if self.outside is not None:
                    self.left = True
                return
            if i in base:
                del base[i]
                if i in self.ov:
                    self.ov = {a: c for a, c in self.ov.items() if a != i}
            if var:
                self.ov[i] = env[i]
            if e.multi:
                outs, e.multi = e.multi, None
                ids = [x['id'] for x in body[k:]]
                ov = self.ov
                vals = {}
                for r, m in outs:
                    env[i] = r
                    self.mem = m
                    self.d.facts = m.facts
                    self.ov = dict(ov)
                    self.ov[i] = r
                    base.setdefault(i, r)
                    self.rest(b, k + 1, pend, True)
                    for x in ids:
                        if x in env:
                            vals.setdefault(x, []).append(env[x])
                for x, vs in vals.items():
                    j = vs[0]
                    for y in vs[1:]:
                        j = j if y is j or y is None else self.d.join(j, y) if j is not None else y
                    env[x] = base[x] = j
                self.ov = ov
                return
        t = self.f.term[b]
        op = t['op']
        mem = self.mem
        if op == 'br':
            s = t['succ']
            if len(s) == 1:
                self.push(pend, b, s[0], mem)
                return
            c = self.val(t['A'][0])
            e.count('branches')
            if c.t & SECRET:
                e.ev('secret-branch', 'branch on a secret-dependent condition', t)
            if c.u:
                e.ev('undef-branch', 'branch on uninitialised data', t)
            if c.isc():
                k = 0 if c.lo & 1 else 1
                if self.outside is not None and s[k] in self.outside and s[1 - k] not in self.outside:
                    self.counted = True
                self.push(pend, b, s[k], mem)
                return
            if e.oracle is not None:
                # one path at a time: the caller enumerates the decisions
                k = e.oracle(c, t)
                if k is None:
                    self.split(pend, b, t, c, s, mem)
                    return
                k = 0 if k else 1
                if self.outside is not None and s[k] in self.outside and s[1 - k] not in self.outside:
                    self.counted = True
                self.push(pend, b, s[k], mem)
                return
            self.split(pend, b, t, c, s, mem)
        elif op == 'switch':
            v = self.val(t['A'][0])
            e.count('branches')
            if v.t & SECRET:
                e.ev('secret-branch', 'switch on a secret-dependent value', t)
            if v.u:
                e.ev('undef-branch', 'switch on uninitialised data', t)
            w = t['w']
            v = self.d.nu(v, w)
            if v.isc():
                for c, to in t['cases']:
                    if (int(c) & ((1 << w) - 1)) == v.lo:
                        self.push(pend, b, to, mem)
                        return
                self.push(pend, b, t['succ'][0], mem)
                return
            if e.oracle is not None:
                for c, to in t['cases']:
                    k = e.oracle(e.cmp('eq', v, C(int(c) & ((1 << w) - 1)), w), t)
                    if k is None:
                        from fieldsem import Lost
                        raise Lost('a switch on an unknown value')
                    if k:
                        self.push(pend, b, to, mem)
                        return
                self.push(pend, b, t['succ'][0], mem)
                return
            tgt = []
            for c, to in t['cases']:
                if v.lo <= int(c) & ((1 << w) - 1) <= v.hi:
                    tgt.append(to)
            tgt.append(t['succ'][0])
            for i, to in enumerate(dict.fromkeys(tgt)):
                self.push(pend, b, to, mem.copy())
        elif op == 'ret':
            r = self.val(t['A'][0], t.get('oty')) if t.get('A') else None
            key = r.lo if isinstance(r, V) and r.isc() and not (r.t or r.u) else None
            x = self.exits.get(key)
            if x is None and len(self.exits) >= 8:
                key = next(iter(self.exits))
                x = self.exits[key]
            if x is None:
                self.exits[key] = (mem, r)
            else:
                self.exits[key] = (e.joinmem(x[0], mem), self.d.join(x[1], r) if r is not None else None)
            if self.outside is not None:
                self.left = True
        elif op == 'unreachable':
            if self.outside is not None:
                self.left = True
        else:
            raise Unsupported('terminator ' + op)

    def split(self, pend, b, t, c, s, mem):
        """Undecided branch: both sides; intervals of compared SSA values and pointers are refined."""
        m2 = mem.copy()
        if self.e.gating:
            mem.gate, m2.gate = mem.gate + ((c, 1),), m2.gate + ((c, 0),)
        ref = self.refine(b, t)
        for k, to in ((1, s[0]), (0, s[1])):
            fs = ref[k].pop('facts', None) if ref else None
            if ref and ref[k].pop('bottom', None):
                continue
            cs = ref[k].pop('cells', None) if ref else None
            if cs:
                # memory holding this very pointer value (joins and loop heads make new ones)
                mm = mem if k else m2
                for n, o in list(mm.objs.items()):
                    if o.kind == 'alloca' or o.kind == 'stack' or n in mm.own:
                        for f, (z, v) in list(o.cells.items()):
                            if v is cs[0]:
                                mm.w(n).cells[f] = (z, cs[1])
            if fs:
                mm = mem if k else m2
                mm.facts = tuple(mm.facts) + tuple(f for f in fs if f not in mm.facts)
            if ref and ref[k]:
                ov = dict(self.ov)
                saved = {}
                for key, v in ref[k].items():
                    if key not in self.base:
                        self.base[key] = self.env[key]
                    saved[key] = self.env[key]
                    self.env[key] = v
                    ov[key] = v
                self.push(pend, b, to, mem if k else m2, ov)
                self.env.update(saved)
            else:
                self.push(pend, b, to, mem if k else m2)

    def refine(self, b, t):
        """SSA-level interval refinement: {1: {id: V}, 0: {id: V}}"""
        a = t['args'][0]
        if a[0] != 'v':
            return None
        ins = self.byid(a[1])
        if ins is None or ins['op'] != 'icmp' or ins['oty'][0] != 'i':
            # pointer null tests
            if ins is not None and ins['op'] == 'icmp' and ins['oty'][0] == 'p' and ins['pred'] in ('eq', 'ne'):
                x, y = ins['args']
                if y[0] == 'null' and x[0] == 'v':
                    p = self.env.get(x[1])
                    if isinstance(p, Ptr) and 'null' in p.b and len(p.b) > 1:
                        nn = Ptr({o: v for o, v in p.b.items() if o != 'null'}, p.t, p.u)
                        nl = C(0)
                        eq = ins['pred'] == 'eq'
                        r = {1: {x[1]: nl if eq else nn}, 0: {x[1]: nn if eq else nl}}
                        r[1]['cells'], r[0]['cells'] = (p, r[1][x[1]]), (p, r[0][x[1]])
                        return r
            return None
        w = ins['oty'][1]
        x, y = ins['A']
        X, Y = self.val(x, ins['oty']), self.val(y, ins['oty'])
        if not isinstance(X, V) or not isinstance(Y, V):
            return None
        pred = ins['pred']
        out = {1: {}, 0: {}}
        NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}
        for k, pr in ((1, pred), (0, NEG[pred])):
            if pr[0] == 's' or (pr in ('eq', 'ne') and (X.lo < 0 or Y.lo < 0) and all(-(1 << w - 1) <= v.lo and v.hi < 1 << w - 1 for v in (X, Y))):
                a1, b1 = self.d.ns(X, w), self.d.ns(Y, w)
            else:
                a1, b1 = self.d.nu(X, w), self.d.nu(Y, w)
            if self.d.rel:
                a1, b1 = self.tighten(a1, b1), self.tighten(b1, a1)
            al, ah, bl, bh = a1.lo, a1.hi, b1.lo, b1.hi
            if pr == 'eq':
                al = bl = max(al, bl)
                ah = bh = min(ah, bh)
            elif pr == 'ne':
                if bl == bh:
                    if al == bl:
                        al += 1
                    if ah == bl:
                        ah -= 1
                if a1.lo == a1.hi:
                    if bl == a1.lo:
                        bl += 1
                    if bh == a1.lo:
                        bh -= 1
            elif pr[1:] == 'lt':
                ah = min(ah, bh - 1)
                bl = max(bl, al + 1)
            elif pr[1:] == 'le':
                ah = min(ah, bh)
                bl = max(bl, al)
            elif pr[1:] == 'gt':
                al = max(al, bl + 1)
                bh = min(bh, ah - 1)
            elif pr[1:] == 'ge':
                al = max(al, bl)
                bh = min(bh, ah)
            if al > ah or bl > bh:
                out[k]['bottom'] = True
                continue
            if self.d.rel and a1.p is not None and b1.p is not None and not (a1.p.isconst() and b1.p.isconst()):
                q = a1.p.add(b1.p, -1)
                o2 = pr if pr in ('eq', 'ne') else pr[1:]
                fs = []
                if o2 in ('eq', 'le', 'lt'):
                    fs.append(q.add(pconst(1)) if o2 == 'lt' else q)
                if o2 in ('eq', 'ge', 'gt'):
                    fs.append(q.scale(-1).add(pconst(1)) if o2 == 'gt' else q.scale(-1))
                fs = [self.d.nfact(f) for f in fs if not f.isconst()]
                if fs:
                    out[k]['facts'] = fs
            for op, v, lo, hi in ((x, a1, al, ah), (y, b1, bl, bh)):
                if op[0] == 'v' and (lo > v.lo or hi < v.hi or v is not (X if op is x else Y)):
                    nv = self.d.fresh(lo, hi, 'ref', v.t, v.u)
                    if self.d.alias is not None and lo < hi and v.p is not None and nv.p is not None:
                        self.d.alias[next(iter(nv.p.d))[0]] = v.p
                    nv = V(lo, hi, v.p if self.d.rel and lo < hi else nv.p, v.may if lo >= 0 else None, v.t, v.u)
                    out[k][op[1]] = nv
                    # through zext/sext/trunc-free casts
                    di = self.byid(op[1])
                    if di is not None and di['op'] in ('zext',) and di['A'][0][0] == 'v' and lo >= 0:
                        src = self.env.get(di['A'][0][1])
                        if isinstance(src, V):
                            if src.lo >= 0:
                                out[k][di['A'][0][1]] = nv
                    elif di is not None and di['op'] == 'sext' and di['A'][0][0] == 'v':
                        sw = di['oty'][1]
                        src = self.env.get(di['A'][0][1])
                        if isinstance(src, V) and -(1 << sw - 1) <= lo and hi < 1 << sw - 1 and v.lo >= -(1 << sw - 1) and v.hi < 1 << sw - 1:
                            out[k][di['A'][0][1]] = nv
        return out

    def nonneg(self, v, facts):
        """Lower bound raised to 0 when the relations of the path show it."""
        if isinstance(v, Ptr):
            if any(isinstance(x, V) and x.lo < 0 for x in v.b.values()):
                return Ptr({o: self.nonneg(x, facts) for o, x in v.b.items()}, v.t, v.u)
            return v
        if not isinstance(v, V) or v.lo >= 0 or v.hi < 0 or v.p is None or v.p.isconst():
            return v
        d = self.d
        keep, d.facts = d.facts, facts
        ok = d.relupper(v.p.scale(-1), 0) <= 0
        d.facts = keep
        return V(0, v.hi, v.p, v.may, v.t, v.u) if ok else v

    def tighten(self, v, o):
        """Interval of v tightened from the relations, as far as a comparison with the constant o needs."""
        if not o.isc() or v.isc() or v.p is None or v.p.isconst() or not self.d.facts:
            return v
        lo, hi = v.lo, v.hi
        c = o.lo
        if hi > c:
            hi = min(hi, self.d.relupper(v.p, c))
        if lo < c:
            lo = max(lo, -self.d.relupper(v.p.scale(-1), -c))
        if lo > hi or (lo == v.lo and hi == v.hi):
            return v
        return V(lo, hi, v.p, v.may, v.t, v.u)

    def outer(self, ov, blocks):
        c = getattr(self.f, '_defb', None)
        if c is None:
            c = self.f._defb = {x['id']: b for b, blk in enumerate(self.f.blocks) for x in blk}
        return {k: v for k, v in ov.items() if c.get(k, -1) not in blocks}

    def byid(self, i):
        c = getattr(self.f, '_byid', None)
        if c is None:
            c = self.f._byid = {x['id']: x for blk in self.f.blocks for x in blk}
        return c.get(i)


OPS = {}


def op(*names):
    def deco(fn):
        for n in names:
            OPS[n] = fn
        return fn
    return deco


def lanes(fr, ins, fn):
    ty = ins['ty']
    a = fr.val(ins['A'][0], ty)
    b = fr.val(ins['A'][1], ty)
    if ty[0] == 'v':
        w = ty[2][1]
        d = fr.d
        a, b = d.as_ew(a, w), d.as_ew(b, w)
        if w == 1:
            return Vec(w, [d.nu(fn(x, y, w), 1) for x, y in zip(a.e, b.e)])
        return Vec(w, [fn(x, y, w) for x, y in zip(a.e, b.e)])
    if ty[1] == 1:
        return fr.d.nu(fn(a, b, 1), 1)
    return fn(a, b, ty[1])


def toint(fr, v):
    if isinstance(v, Ptr):
        return fr.d.top(64, v.t, v.u)
    return v


CAP = 1 << 200


def capv(d, v, w):
    if v.hi > CAP or v.lo < -CAP:
        return d.nu(v, w)
    return v


@op('add')
def _add(fr, ins):
    def f(a, b, w):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return fr.e.ptradd(a, b)
        if w == 1:
            return fr.d.bxor(a, b, 1)
        r = fr.d.add(a, b)
        if fr.d.rel and w <= 64 and r.lo >= 1 << w:
            k = r.lo >> w << w
            if r.hi - k < 1 << w:
                r = C(r.lo - k) if r.isc() and not (r.t or r.u) else fr.d.add(r, C(-k))
        return r
    return lanes(fr, ins, f)


@op('sub')
def _sub(fr, ins):
    def f(a, b, w):
        if isinstance(a, Ptr):
            if isinstance(b, Ptr):
                o1, v1 = a.one()
                o2, v2 = b.one()
                if o1 is not None and o1 == o2:
                    return fr.d.sub(v1, v2)
                return fr.d.top(64)
            return fr.e.ptradd(a, fr.d.neg(b))
        if isinstance(b, Ptr):
            return fr.d.top(64, b.t)
        return fr.d.sub(a, b)
    return lanes(fr, ins, f)


@op('mul')
def _mul(fr, ins):
    def f(a, b, w):
        a, b = toint(fr, a), toint(fr, b)
        h = 1 << (w + 8)
        if a.hi > h or a.lo < -h:
            a = fr.d.nu(a, w)
        if b.hi > h or b.lo < -h:
            b = fr.d.nu(b, w)
        return fr.d.mul(a, b)
    return lanes(fr, ins, f)


@op('and')
def _and(fr, ins):
    def f(a, b, w):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            p, m = (a, b) if isinstance(a, Ptr) else (b, a)
            o, v = p.one()
            if o is not None and isinstance(m, V) and m.isc():
                ob = fr.e.getobj(fr.mem, o)
                if ob is not None and m.lo & ((1 << 64) - 1) < (ob.align or 1):
                    return fr.d.band(v, m, 64)
                if ob is not None and m.lo & ((1 << 64) - 1) < 64:
                    return fr.d.fresh(0, m.lo, 'ptrlow', p.t)
        return fr.d.band(toint(fr, a), toint(fr, b), w)
    return lanes(fr, ins, f)


@op('or')
def _or(fr, ins):
    return lanes(fr, ins, lambda a, b, w: fr.d.bor(toint(fr, a), toint(fr, b), w))


@op('xor')
def _xor(fr, ins):
    return lanes(fr, ins, lambda a, b, w: fr.d.bxor(toint(fr, a), toint(fr, b), w))


def _sh(fr, ins, f):
    def g(a, b, w):
        a, b = toint(fr, a), fr.d.nu(toint(fr, b), w)
        if b.t & SECRET:
            fr.e.ev('secret-shift', 'secret shift amount', ins)
        if b.isc():
            return f(a, b.lo, w) if b.lo < w else fr.d.top(w, 0, True)
        return var_shift(fr, ins['op'], a, b, w)
    return lanes(fr, ins, g)


def var_shift(fr, op, a, b, w):
    d = fr.d
    t, u = a.t | b.t, a.u or b.u
    if op == 'shl':
        if a.isc() and a.lo == 1:
            return d.fresh(1 << min(b.lo, w - 1), 1 << min(b.hi, w - 1), 'pow', t, u)
        return d.top(w, t, u, 'shl')
    a = d.nu(a, w) if op == 'lshr' else d.ns(a, w)
    lo, hi = (a.lo >> b.hi if b.hi < w else 0), a.hi >> min(b.lo, w - 1)
    if op == 'ashr':
        lo, hi = min(a.lo >> b.lo if b.lo < w else 0, a.lo >> min(b.hi, w - 1)), max(a.hi >> min(b.lo, w - 1), 0 if a.hi >= 0 else -1)
    return d.fresh(min(lo, hi), hi, 'shr', t, u)


@op('shl')
def _shl(fr, ins):
    return _sh(fr, ins, lambda a, k, w: fr.d.shl(a if abs(a.lo) < (1 << (w + 8)) and abs(a.hi) < (1 << (w + 8)) else fr.d.nu(a, w), k, w))


@op('lshr')
def _lshr(fr, ins):
    return _sh(fr, ins, lambda a, k, w: fr.d.lshr(a, k, w))


@op('ashr')
def _ashr(fr, ins):
    return _sh(fr, ins, lambda a, k, w: fr.d.ashr(a, k, w))


@op('udiv', 'urem', 'sdiv', 'srem')
def _div(fr, ins):
    def f(a, b, w):
        d = fr.d
        if (a.t | b.t) & SECRET:
            fr.e.ev('secret-div', 'division with a secret operand', ins)
        s = ins['op'][0] == 's'
        a, b = (d.ns(a, w), d.ns(b, w)) if s else (d.nu(a, w), d.nu(b, w))
        t, u = a.t | b.t, a.u or b.u
        if b.lo <= 0 <= b.hi:
            fr.e.ev('div-zero', 'possible division by zero', ins)
            return d.top(w, t, u)
        if a.isc() and b.isc():
            q = abs(a.lo) // abs(b.lo)
            if (a.lo < 0) != (b.lo < 0):
                q = -q
            return C(q) if 'div' in ins['op'] else C(a.lo - q * b.lo)
        if b.isc() and b.lo > 0 and b.lo & (b.lo - 1) == 0 and a.lo >= 0:
            k = b.lo.bit_length() - 1
            return d.lshr(a, k, w) if 'div' in ins['op'] else d.bits(a, 0, k, w)
        if a.lo >= 0 and b.lo > 0:
            if 'div' in ins['op']:
                return d.fresh(a.lo // b.hi, a.hi // b.lo, 'div', t, u)
            return d.fresh(0, min(a.hi, b.hi - 1), 'rem', t, u)
        return d.top(w, t, u)
    return lanes(fr, ins, f)


@op('freeze')
def _freeze(fr, ins):
    return fr.val(ins['A'][0], ins['ty'])


@op('zext')
def _zext(fr, ins):
    v = fr.val(ins['A'][0], ins['oty'])
    if ins['ty'][0] == 'v':
        w0 = ins['oty'][2][1]
        v = fr.d.as_ew(v, w0)
        return Vec(ins['ty'][2][1], [fr.d.nu(x, w0) for x in v.e])
    return fr.d.nu(toint(fr, v), ins['oty'][1])


@op('sext')
def _sext(fr, ins):
    v = fr.val(ins['A'][0], ins['oty'])

    def s(x, w):
        if w == 1:
            return fr.d.neg(fr.d.nu(x, 1))
        return fr.d.ns(x, w)
    if ins['ty'][0] == 'v':
        w0 = ins['oty'][2][1]
        v = fr.d.as_ew(v, w0)
        return Vec(ins['ty'][2][1], [s(x, w0) for x in v.e])
    return s(toint(fr, v), ins['oty'][1])


@op('trunc')
def _trunc(fr, ins):
    v = fr.val(ins['A'][0], ins['oty'])
    if ins['ty'][0] == 'v':
        w0 = ins['oty'][2][1]
        v = fr.d.as_ew(v, w0)
        w = ins['ty'][2][1]
        return Vec(w, [fr.d.bits(x, 0, w, w0) for x in v.e])
    w, w0 = ins['ty'][1], ins['oty'][1]
    v = toint(fr, v)
    if v.lo >= 0 and v.hi < (1 << w):
        return v
    if v.lo >= -(1 << (w - 1)) and v.hi < (1 << (w - 1)):
        return v
    return fr.d.bits(v, 0, w, w0)


@op('ptrtoint')
def _p2i(fr, ins):
    return fr.val(ins['A'][0])


@op('inttoptr')
def _i2p(fr, ins):
    return fr.val(ins['A'][0])


@op('bitcast')
def _bitcast(fr, ins):
    v = fr.val(ins['A'][0], ins['oty'])
    ty = ins['ty']
    if isinstance(v, Vec) and ty[0] == 'v':
        return v
    if isinstance(v, Vec) and ty[0] == 'i':
        return fr.d.as_ew(v, ty[1]).e[0]
    if isinstance(v, V) and ty[0] == 'v':
        w0 = ins['oty'][1]
        return fr.d.as_ew(Vec(w0, [v]), ty[2][1])
    return v


@op('getelementptr')
def _gep(fr, ins):
    p = fr.val(ins['A'][0])
    d = fr.d
    off = C(ins['off'])
    for o, sc, w in ins['X']:
        i = d.ns(toint(fr, fr.val(o)), w)
        off = d.add(off, d.mul(i, C(sc)))
    if not isinstance(p, Ptr):
        if p.isc() and p.lo == 0:
            return Ptr({'null': off})
        return fr.d.top(64, p.t, True)
    return fr.e.ptradd(p, off)


@op('alloca')
def _alloca(fr, ins):
    n = fr.val(comp_operand(ins['n']))
    name = '%s#%d/%d' % (fr.f.name, fr.id, ins['id'])
    size = ins['size'] * n.lo if n.isc() else fr.d.mul(n, C(ins['size']))
    o = Obj(name, size, 'alloca', 'undef', False, ins['align'])
    o.info = 'local %s in %s' % (ins.get('name') or ('of type ' + ins['atys']), fr.f.name)
    o.frame = fr.id
    fr.mem.add(o)
    if name not in fr.locals:
        fr.locals.append(name)
    return Ptr({name: C(0)})


def bitload(e, x, w, p, i):
    d = e.dom
    q = d.nu(x, w)
    if q.p is None or (e.bitloads == 'derived' and len(q.p.d) == 1):
        return x
    o, off = p.one()
    if o is not None and off.isc():
        e.bitaddr[(o, off.lo + i * w // 8)] = q.p
    return d.bitnamed(q, w)


def sizeof(ty):
    if ty[0] == 'i':
        return (ty[1] + 7) // 8
    if ty[0] == 'p':
        return 8
    if ty[0] == 'v':
        return ty[1] * sizeof(ty[2])
    if ty[0] == 's':
        return ty[3]
    raise Unsupported('sizeof %r' % (ty,))


def chkalign(fr, ins, p):
    h = fr.e.align_hook if hasattr(fr.e, 'align_hook') else None
    if h:
        h(fr, ins, p)


@op('load')
def _load(fr, ins):
    p = fr.val(ins['A'][0])
    ty = ins['ty']
    chkalign(fr, ins, p)
    if ty[0] == 'v':
        ew = ty[2][1]
        fr.e.access_vec = ty[1] * ew // 8
        r = [toint(fr, fr.e.load(fr.mem, fr.e.ptradd(p, C(i * ew // 8)), ew // 8, ins)) for i in range(ty[1])]
        if fr.e.bitloads:
            r = [bitload(fr.e, x, ew, p, i) for i, x in enumerate(r)]
        return Vec(ew, r)
    if ty[0] in 'ip':
        n = sizeof(ty)
        if n > 8:
            lo = toint(fr, fr.e.load(fr.mem, p, 8, ins))
            r = lo
            for k in range(8, n, 8):
                r = fr.d.add(r, fr.d.shl(toint(fr, fr.e.load(fr.mem, fr.e.ptradd(p, C(k)), 8, ins)), 8 * k))
            return r
        v = fr.e.load(fr.mem, p, n, ins)
        if fr.e.bitloads and isinstance(v, V):
            v = bitload(fr.e, v, 8 * n, p, 0)
        if ty[0] == 'i' and ty[1] < 8 * n and isinstance(v, V):
            v = fr.d.bits(v, 0, ty[1], 8 * n)
        return v
    raise Unsupported('load of %r' % (ty,))


@op('store')
def _store(fr, ins):
    ty = ins['vty']
    v = fr.val(ins['A'][0], ty)
    p = fr.val(ins['A'][1])
    chkalign(fr, ins, p)
    if ty[0] == 'v':
        ew = v.ew
        if ew == 1:
            v = fr.d.as_ew(v, 8)
            ew = 8
        for i, x in enumerate(v.e):
            fr.e.store(fr.mem, fr.e.ptradd(p, C(i * ew // 8)), x, ew // 8, ins)
        return None
    n = sizeof(ty)
    if isinstance(v, V):
        v = fr.d.nu(v, 8 * n) if ty[0] != 'i' or ty[1] != 1 else fr.d.nu(v, 1)
        if fr.d.rel:
            v = fr.d.untangle(v)
    if n > 8:
        for k in range(0, n, 8):
            fr.e.store(fr.mem, fr.e.ptradd(p, C(k)), fr.d.bits(v, 8 * k, 8 * k + 64, 8 * n), 8, ins)
        return None
    fr.e.store(fr.mem, p, v, n, ins)
    return None


@op('icmp')
def _icmp(fr, ins):
    ty = ins['oty']
    a, b = fr.val(ins['A'][0], ty), fr.val(ins['A'][1], ty)
    if ty[0] == 'v':
        w = ty[2][1]
        a, b = fr.d.as_ew(a, w), fr.d.as_ew(b, w)
        return Vec(1, [fr.e.cmp(ins['pred'], x, y, w) for x, y in zip(a.e, b.e)])
    w = 64 if ty[0] == 'p' else ty[1]
    return fr.e.cmp(ins['pred'], a, b, w)


@op('select')
def _select(fr, ins):
    ty = ins['ty']
    c = fr.val(ins['A'][0], ins['oty'])
    a, b = fr.val(ins['A'][1], ty), fr.val(ins['A'][2], ty)
    if ty[0] == 'v':
        w = ty[2][1]
        a, b = fr.d.as_ew(a, w), fr.d.as_ew(b, w)
        cs = c.e if isinstance(c, Vec) else [c] * len(a.e)
        return Vec(w, [fr.e.select(k, x, y, w) for k, x, y in zip(cs, a.e, b.e)])
    if c.t & SECRET:
        fr.e.ev('secret-select', 'select on a secret-dependent condition', ins)
    if c.u:
        fr.e.ev('undef-branch', 'select on uninitialised data', ins)
    return fr.e.select(c, a, b, tw(ty))


@op('insertelement')
def _ie(fr, ins):
    ty = ins['ty']
    v = fr.d.as_ew(fr.val(ins['A'][0], ty), ty[2][1])
    x = fr.val(ins['A'][1], ty[2])
    i = fr.val(ins['A'][2])
    if not i.isc():
        raise Unsupported('variable lane')
    e = list(v.e)
    e[i.lo] = toint(fr, x)
    return Vec(v.ew, e)


@op('extractelement')
def _ee(fr, ins):
    ty = ins['oty']
    v = fr.d.as_ew(fr.val(ins['A'][0], ty), ty[2][1])
    i = fr.val(ins['A'][1])
    if not i.isc():
        r = v.e[0]
        for x in v.e[1:]:
            r = fr.d.join(r, x)
        return r
    return v.e[i.lo]


@op('shufflevector')
def _sv(fr, ins):
    ty = ins['oty']
    w = ty[2][1]
    a = fr.d.as_ew(fr.val(ins['A'][0], ty), w)
    b = fr.val(ins['A'][1], ty)
    al = a.e + (fr.d.as_ew(b, w).e if b is not None else [])
    return Vec(w, [al[k] if k >= 0 else fr.d.top(w, 0, True, 'undef') for k in ins['mask']])


@op('extractvalue')
def _ev(fr, ins):
    v = fr.val(ins['A'][0], ins['oty'])
    for i in ins['idx']:
        v = v[i]
    return v


@op('insertvalue')
def _iv(fr, ins):
    def put(v, idx, x):
        l = list(v)
        l[idx[0]] = put(l[idx[0]], idx[1:], x) if len(idx) > 1 else x
        return tuple(l)
    return put(fr.val(ins['A'][0], ins['ty']), ins['idx'], fr.val(ins['A'][1]))


@op('fence')
def _fence(fr, ins):
    return None


def run_asm(fr, ins):
    e = fr.e
    outs, inp, clob = x86.parse_constraints(ins['cons'])
    text = ins['asm']
    kinds = outs + inp
    for i, c in enumerate(kinds):
        if '*' in c:
            # memory operand: the argument is the address
            text = re.sub(r'\$\{?%d(?::\w)?\}?(?!\d)' % i, '($%d)' % i, text)
    prog = x86.parse(text)
    m = x86.Machine(e, fr.mem, ins)
    e.asm_seen[(fr.f.name, loc_str(ins))] = len(prog)
    args = [fr.val(o, t) for o, t in zip(ins['A'], ins['atys'])]
    no = len([o for o in outs if '*' not in o])
    # operand numbering: outputs then inputs
    k = 0
    pos = {}
    ai = 0
    for i, o in enumerate(outs):
        if '*' in o:
            m.opv[k] = args[ai]
            m.opw[k] = 64
            ai += 1
        else:
            m.opv[k] = fr.d.top(64, 0, True, 'asmout')
        k += 1
    for c in inp:
        v = args[ai]
        ty = ins['atys'][ai]
        ai += 1
        if ty[0] == 'i' and isinstance(v, V):
            v = fr.d.nu(v, ty[1])
        if c.isdigit():
            m.opv[int(c)] = v
            m.opv[k] = v
            pos[k] = int(c)
        else:
            m.opv[k] = v
        m.opw[k] = tw(ty) if ty[0] in 'ip' else 256
        k += 1
    rt = ins['ty']
    rts = rt[1] if rt[0] == 's' else ([] if rt[0] == 'void' else [rt])
    direct = [i for i, o in enumerate(outs) if '*' not in o]
    for i, t in zip(direct, rts):
        m.opw[i] = tw(t) if t[0] in 'ip' else 256
    # fixed-register inputs
    m.run(prog)
    fr.mem = m.mem
    res = []
    for i, t in zip(direct, rts):
        v = m.opv[i]
        if t[0] == 'i' and t[1] < 64 and isinstance(v, V):
            v = fr.d.bits(v, 0, t[1], 64)
        res.append(v)
    if rt[0] == 'void':
        return None
    return tuple(res) if rt[0] == 's' else res[0]


@op('call')
def _call(fr, ins):
    if 'asm' in ins:
        return run_asm(fr, ins)
    args = [fr.val(o, t) for o, t in zip(ins['A'], ins['atys'])]
    e = fr.e
    if 'fn' in ins:
        name = ins['fn']
        if name.startswith('llvm.'):
            import intrin
            return intrin.call(fr, ins, name, args)
        r, fr.mem = e.call(name, args, fr.mem, ins, True)
        if fr.d.rel:
            fr.d.facts = fr.mem.facts
        return r
    fp = fr.val(ins['F'])
    if isinstance(fp, V) and fp.isc() and fp.lo == 0:
        e.ev('null-call', 'call through a null function pointer', ins)
        raise Bottom('null call')
    if not isinstance(fp, Ptr) or not fp.b:
        raise Unsupported('indirect call')
    if fp.t & SECRET:
        e.ev('secret-branch', 'secret-dependent call target', ins)
    rs = None
    names = [n for n in fp.b if n != 'null']
    if 'null' in fp.b:
        e.ev('null-call', 'function pointer may be null', ins)
    if len(names) == 1:
        r, fr.mem = e.call(names[0], args, fr.mem, ins, True)
        return r
    base = fr.mem
    for n in names:
        r, m = e.call(n, args, base.copy(), ins)
        rs = (r, m) if rs is None else (fr.d.join(rs[0], r) if r is not None else None, e.joinmem(rs[1], m))
    fr.mem = rs[1]
    return rs[0]
