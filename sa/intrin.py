"""LLVM intrinsics."""
from dom import V, Ptr, Vec, C
from x86 import Unsupported
import libc


def shiftvec(fr, v, ew, k, kind):
    d = fr.d
    v = d.as_ew(v, ew)
    out = []
    ks = k if isinstance(k, list) else [k] * len(v.e)
    for x, c in zip(v.e, ks):
        if isinstance(c, int):
            if kind == 'l':
                out.append(d.shl(cap(d, x, ew), c, ew) if c < ew else C(0))
            elif kind == 'r':
                out.append(d.lshr(x, c, ew) if c < ew else C(0))
            else:
                out.append(d.ashr(x, min(c, ew - 1), ew))
        else:
            t, u = x.t | c.t, x.u or c.u
            if kind == 'r':
                y = d.nu(x, ew)
                cc = d.nu(c, ew)
                out.append(d.fresh(0, y.hi >> min(cc.lo, ew), 'vshr', t, u))
            else:
                out.append(d.top(ew, t, u, 'vsh'))
    return Vec(ew, out)


def cap(d, x, w):
    return x if abs(x.lo) < (1 << (w + 16)) and abs(x.hi) < (1 << (w + 16)) else d.nu(x, w)


def counts(fr, v, ew):
    v = fr.d.as_ew(v, ew)
    return [fr.d.nu(x, ew).lo if x.isc() else x for x in v.e]


def blend(fr, a, b, m):
    d = fr.d
    for ew in (64, 32, 16, 8):
        if m.ew < ew:
            continue
        mm = d.as_ew(m, ew)
        ok = all((x.lo >= -1 and x.hi <= 0) or (x.isc() and (x.lo & ((1 << ew) - 1)) in (0, (1 << ew) - 1)) for x in mm.e)
        if ok or ew == 8:
            aa, bb = d.as_ew(a, ew), d.as_ew(b, ew)
            out = []
            for x, y, c in zip(aa.e, bb.e, mm.e):
                if c.isc():
                    s = (c.lo >> (ew - 1)) & 1
                    out.append(fr.e.retag(y if s else x, c.t))
                else:
                    bit = d.neg(c) if c.lo >= -1 and c.hi <= 0 else d.lshr(c, ew - 1, ew)
                    out.append(fr.e.select(bit, y, x, ew))
            return Vec(ew, out)


def call(fr, ins, name, args):
    d, e = fr.d, fr.e
    n = name[5:]
    if n.startswith('lifetime.start'):
        p = args[1]
        o, off = p.one() if isinstance(p, Ptr) else (None, None)
        if o is not None:
            ob = e.getobj(fr.mem, o)
            if ob is not None and ob.kind == 'alloca' and (e.scrub is None):
                ob = fr.mem.w(o)
                ob.cells = {}
                ob.weak = None
        return None
    if n.startswith(('lifetime', 'prefetch', 'dbg', 'assume', 'x86.avx.vzero', 'experimental.noalias')):
        return None
    if n.startswith('memcpy') or n.startswith('memmove'):
        libc.memcpy(e, fr.mem, args[0], args[1], args[2], ins, n.startswith('memmove'))
        return None
    if n.startswith('memset'):
        libc.memset(e, fr.mem, args[0], args[1], args[2], ins)
        return None
    if 'pblendvb' in n:
        return blend(fr, args[0], args[1], args[2])
    if n.endswith('avx2.permd'):
        a = d.as_ew(args[0], 32)
        idx = d.as_ew(args[1], 32)
        out = []
        for k in idx.e:
            if k.isc():
                out.append(a.e[k.lo & 7])
            elif d.twoval(d.nu(k, 32)) is not None:
                v0, v1, c = d.twoval(d.nu(k, 32))
                out.append(e.select(c, a.e[v1 & 7], a.e[v0 & 7], 32))
            else:
                # masks of the form x or x^1 selected by a bit: all lanes k can reach
                lo, hi = max(0, d.nu(k, 32).lo), min(7, d.nu(k, 32).hi)
                r = None
                kn = d.nu(k, 32)
                for j in range(lo, hi + 1):
                    if kn.may is not None and j & ~kn.may:
                        continue
                    r = a.e[j] if r is None else d.join(r, a.e[j])
                if r is None:
                    r = d.top(32)
                out.append(e.retag(r, k.t))
        return Vec(32, out)
    parts = n.split('.')
    if parts[0] == 'x86' and parts[1] in ('avx2', 'sse2', 'avx512'):
        o = parts[2]
        ew = {'q': 64, 'd': 32, 'w': 16}.get(parts[3]) if len(parts) > 3 else None
        if o in ('pslli', 'psrli', 'psrai') and ew:
            k = args[1]
            if not k.isc():
                return shiftvec(fr, args[0], ew, [k] * (len(args[0].e) * args[0].ew // ew), {'pslli': 'l', 'psrli': 'r', 'psrai': 'a'}[o])
            return shiftvec(fr, args[0], ew, k.lo & 0xffffffff, {'pslli': 'l', 'psrli': 'r', 'psrai': 'a'}[o])
        if o in ('psllv', 'psrlv', 'psrav') and ew:
            return shiftvec(fr, args[0], ew, counts(fr, args[1], ew), {'psllv': 'l', 'psrlv': 'r', 'psrav': 'a'}[o])
        if o in ('psll', 'psrl', 'psra') and ew:
            k = d.as_ew(args[1], 64).e[0]
            if k.isc():
                return shiftvec(fr, args[0], ew, k.lo, {'psll': 'l', 'psrl': 'r', 'psra': 'a'}[o])
            return shiftvec(fr, args[0], ew, [k] * (len(args[0].e) * args[0].ew // ew), {'psll': 'l', 'psrl': 'r', 'psra': 'a'}[o])
    if 'pshuf.b' in n:
        a, m = d.as_ew(args[0], 8), d.as_ew(args[1], 8)
        out = []
        for i, k in enumerate(m.e):
            if not k.isc():
                raise Unsupported('variable byte shuffle')
            out.append(C(0) if k.lo & 128 else a.e[(i & ~15) + (k.lo & 15)])
        return Vec(8, out)
    if n.startswith('bswap'):
        w = int(n.split('.i')[1])
        x = d.nu(args[0], w)
        r = None
        for i in range(w // 8):
            y = d.shl(d.bits(x, 8 * i, 8 * i + 8, w), w - 8 - 8 * i)
            r = y if r is None else d.add(r, y)
        return r
    if n.startswith('fshl') or n.startswith('fshr'):
        w = int(n.split('.i')[1])
        k = args[2]
        if not k.isc():
            return d.top(w, args[0].t | args[1].t | k.t)
        k = k.lo % w
        if n.startswith('fshr'):
            k = w - k if k else 0
            if k == 0:
                return args[1]
        if k == 0:
            return args[0]
        a, b = d.nu(args[0], w), d.nu(args[1], w)
        return d.add(d.shl(d.bits(a, 0, w - k, w), k), d.lshr(b, w - k, w))
    if n.startswith(('umin', 'umax', 'smin', 'smax')):
        w = int(n.split('.i')[1])
        f = d.nu if n[0] == 'u' else d.ns
        a, b = f(args[0], w), f(args[1], w)
        g = min if 'min' in n else max
        return d.fresh(g(a.lo, b.lo), g(a.hi, b.hi), n, a.t | b.t)
    if n.startswith('uadd.with.overflow') or n.startswith('usub.with.overflow'):
        w = int(n.split('.i')[1])
        a, b = d.nu(args[0], w), d.nu(args[1], w)
        v = d.add(a, b) if n[1] == 'a' else d.sub(a, b)
        r = d.nu(v, w)
        if r is v:
            return (v, C(0))
        if v.p is not None and r.p is not None:
            from dom import Poly
            q = v.p.add(r.p, -1)
            q = Poly({m: c >> w for m, c in q.d.items()})
            if n[1] == 's':
                q = q.scale(-1)
            lo, hi = d.prange(q.d)
            return (r, V(max(0, lo), min(1, hi), q, 1, v.t, v.u))
        return (r, d.fresh(0, 1, 'ov', v.t, v.u))
    if n.startswith('x86.addcarry') or n.startswith('x86.subborrow'):
        w = int(n.split('.')[-1])
        c = d.nu(args[0], 8)
        a, b = d.nu(args[1], w), d.nu(args[2], w)
        s = 'subborrow' in n
        v = d.sub(d.sub(a, b), c) if s else d.add(d.add(a, b), c)
        r = d.nu(v, w)
        if r is v:
            return (C(0), v)
        if v.p is not None and r.p is not None:
            from dom import Poly
            q = v.p.add(r.p, -1)
            q = Poly({m: k >> w for m, k in q.d.items()})
            if s:
                q = q.scale(-1)
            lo, hi = d.prange(q.d)
            return (V(max(0, lo), min(1, hi), q, 1, v.t, v.u), r)
        return (d.fresh(0, 1, 'cf', v.t, v.u), r)
    if n.startswith('x86.bmi.mulx'):
        pass
    raise Unsupported('intrinsic ' + name)
