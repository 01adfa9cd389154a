"""Models of the C library functions the code calls."""
from dom import V, Ptr, Vec, C, pconst
from x86 import Unsupported
import interp


def rangecheck(e, mem, p, n, ins, write):
    """Bounds check of an access of n (V) bytes at p. Returns list of (obj, off)."""
    acc = []
    if not isinstance(p, Ptr):
        if n.isc() and n.lo == 0:
            return []
        return e.access(mem, p, 1, ins, write)
    d = e.dom
    for name, off in p.b.items():
        if name == 'null':
            if not (n.isc() and n.lo == 0):
                e.ev('maybe-null', 'pointer may be null', ins)
            continue
        o = e.getobj(mem, name)
        if o is None:
            e.ev('dangling', 'access to dead object ' + name, ins)
            continue
        e.count('accesses')
        if (off.t | p.t) & interp.SECRET:
            e.ev('secret-address', 'secret-dependent address into ' + e.oname(o), ins)
        if n.t & interp.SECRET:
            e.ev('secret-length', 'secret-dependent length', ins)
        if off.u or p.u or n.u:
            e.ev('undef-address', 'address or length depends on uninitialised data', ins)
        end = d.add(off, n)
        if isinstance(o.size, int):
            hi = end.hi
            if hi > o.size and end.p is not None:
                hi = min(hi, d.upper(end.p))
            lo = off.lo
            if lo < 0 and off.p is not None:
                lo = max(lo, d.lower(off.p))
            bad = lo < 0 or hi > o.size
            if bad and d.rel and off.p is not None and end.p is not None:
                bad = not (d.relupper(off.p.scale(-1), 0) <= 0 and d.relupper(end.p, o.size) <= o.size)
        else:
            q = o.size.p.add(end.p, -1) if o.size.p is not None and end.p is not None else None
            bad = off.lo < 0 or not ((q is not None and (d.relupper(q.scale(-1), 0) <= 0 if d.rel else d.lower(q) >= 0)) or end.hi <= o.size.lo)
            hi = end.hi
            lo = off.lo
        if bad and n.hi > 0:
            e.ev('oob', '%s of %s bytes at offset %s of %s (%s bytes)' % ('write' if write else 'read', n.lo if n.isc() else n, off.lo if off.isc() else off, e.oname(o), o.size), ins)
        if write and o.ro and n.hi > 0:
            e.ev('ro-write', 'write to read-only ' + e.oname(o), ins)
        if e.access_hook and n.hi > 0:
            e.hookmem = mem
            e.access_hook(o, off, n, ins, write)
        acc.append((o, off))
    return acc


def blocktaint(e, o, lo, hi):
    t = 0
    u = False
    if o.default == 'undef':
        u = o.fill is None or any(not e.covered(o, f) for f in range(max(lo, 0), min(o.fill[0], lo + 4096)))
        t |= o.fill[1] if o.fill else 0
    elif o.default == 'input':
        t |= o.taint if isinstance(o.taint, int) else o.taint(0)
    for f, (n, v) in o.cells.items():
        if f + n > lo and f < hi:
            t |= getattr(v, 't', 0)
            u = u or getattr(v, 'u', False)
    for w in o.weak or ():
        if w[0] < hi and w[1] > lo:
            t |= w[2]
    if o.default == 'undef' and isinstance(o.size, int):
        # fully covered?
        pos = lo
        for z in range(1, 8):
            if pos not in o.cells and lo - z in o.cells and o.cells[lo - z][0] > z:
                pos = lo - z
        lo = pos
        while pos < hi and pos in o.cells:
            pos += o.cells[pos][0]
        if pos >= hi:
            u = any(getattr(o.cells[f][1], 'u', False) for f in o.cells if lo <= f < hi)
    return t, u


def memcpy(e, mem, dst, src, n, ins, move=False):
    if e.memcpy_hook is not None and e.memcpy_hook(mem, dst, src, n, ins):
        return
    d = e.dom
    n = d.nu(n, 64)
    da = rangecheck(e, mem, dst, n, ins, True)
    sa = rangecheck(e, mem, src, n, ins, False)
    if n.isc() and n.lo == 0:
        return
    if not da:
        return
    if n.isc() and len(da) == 1 and len(sa) == 1 and da[0][1].isc() and sa[0][1].isc() and n.lo <= 65536:
        (do, df), (so, sf) = da[0], sa[0]
        df, sf, k = df.lo, sf.lo, n.lo
        if isinstance(do.size, int) and (df < 0 or df + k > do.size):
            return
        if isinstance(so.size, int) and (sf < 0 or sf + k > so.size):
            return
        if so is do and df == sf:
            return
        if so is do and abs(df - sf) < k and not move:
            e.ev('memcpy-overlap', 'overlapping memcpy', ins)
        # copy cell by cell
        vals = []
        pos = sf
        while pos < sf + k:
            c = so.cells.get(pos)
            if c is not None and pos + c[0] <= sf + k:
                w = c[0]
            else:
                ic = e.inputs.get(so.name, {}).get(pos) if so.default == 'input' and not any((pos - z) in so.cells and so.cells[pos - z][0] > z for z in range(8)) else None
                if ic is not None and pos + ic[0] <= sf + k and not any(z in so.cells for z in range(pos, pos + ic[0])):
                    w = ic[0]
                else:
                    w = 1
                    for z in (8, 4, 2):
                        if pos % z == 0 and pos + z <= sf + k and not any(y in so.cells for y in range(pos - 7, pos + z)) and (so.default != 'input' or not any(y in e.inputs.get(so.name, {}) for y in range(pos - 7, pos + z))):
                            w = z
                            break
            vals.append((pos - sf, w, e.rd(so, pos, w)))
            pos += w
        o = mem.w(do.name)
        for f, w, v in vals:
            e.wr(o, df + f, w, v)
        return
    # summarised copy
    t, u = 0, False
    for so, sf in sa:
        hi = sf.hi + n.hi
        if isinstance(so.size, int):
            hi = min(hi, so.size)
            end = d.add(sf, n)
            if d.rel and end.p is not None and not end.isc():
                hi = min(hi, d.relupper(end.p, sf.lo))
        bt, bu = blocktaint(e, so, sf.lo, hi)
        t |= bt
        u = u or bu
    for do, df in da:
        o = mem.w(do.name)
        weakrange(e, o, df, n, t | n.t, u, ins)


def inhash(ins):
    """Inside the block-buffered hash functions, where a write at a variable position of an undefined buffer
    is taken to define what it may cover (the buffers are filled front to back before use)."""
    return bool(ins) and any('third_party/sha' in x[0] for x in ins.get('loc') or ())


def weakrange(e, o, off, n, t, u, ins=None):
    """Weak write of unknown data into [off, off+n)."""
    d = e.dom
    lo = max(off.lo, 0)
    hi = off.hi + n.hi
    if isinstance(o.size, int):
        hi = min(hi, o.size)
    for f in sorted(o.cells):
        k, x = o.cells[f]
        if f + k > lo and f < hi:
            o.cells[f] = (k, d.top(8 * k, t | getattr(x, 't', 0), u or getattr(x, 'u', False), 'copy'))
    # part certainly written
    clo, chi = off.hi, off.lo + n.lo
    if o.default == 'undef' and not isinstance(o.size, int) and off.isc() and n.p is not None and o.size.p is not None and not u and d.rel and d.relupper(o.size.p.add(n.p, -1), off.lo) <= off.lo:
        for f in [f for f in o.cells if f >= off.lo]:
            del o.cells[f]
        o.fill = (off.lo, t)
        return
    fill = inhash(ins)
    if fill and o.default == 'undef':
        e.count('hash buffer writes taken to define')
        o.default = 'unknown'
    if o.default == 'undef' and isinstance(o.size, int):
        for f in range(lo, min(hi, lo + 70000)):
            if any((f - z) in o.cells and o.cells[f - z][0] > z for z in range(8)):
                continue
            if clo <= f < chi:
                o.cells[f] = (1, d.top(8, t, u, 'copy'))
            else:
                o.weak = (o.weak or ()) + ((lo, hi, t),)
                break
    else:
        o.weak = (o.weak or ()) + ((lo, hi, t),)


def memset(e, mem, dst, val, n, ins):
    d = e.dom
    n = e.count_hook(d.nu(n, 64))
    da = rangecheck(e, mem, dst, n, ins, True)
    if n.isc() and n.lo == 0:
        return
    v = d.bits(val, 0, 8, 32) if isinstance(val, V) else d.top(8)
    if n.isc() and len(da) == 1 and da[0][1].isc() and n.lo <= 1 << 20:
        o, off = da[0]
        off, k = off.lo, n.lo
        if isinstance(o.size, int) and (off < 0 or off + k > o.size):
            return
        o = mem.w(o.name)
        pos = off
        while pos < off + k:
            w = 1
            for z in (8, 4, 2):
                if pos % z == 0 and pos + z <= off + k:
                    w = z
                    break
            x = C(v.lo * (((1 << (8 * w)) - 1) // 255)) if v.isc() else (v if w == 1 else d.mul(v, C(((1 << (8 * w)) - 1) // 255)))
            e.wr(o, pos, w, e.retag(x, v.t))
            pos += w
        return
    for o, off in da:
        weakrange(e, mem.w(o.name), off, n, v.t | n.t, v.u, ins)


def heap(e, mem, n, ins, what, align):
    e.nheap = getattr(e, 'nheap', 0) + 1
    name = 'heap%d' % e.nheap
    o = interp.Obj(name, n.lo if n.isc() else n, 'heap', 'undef', False, align)
    o.info = 'block from %s' % what
    mem.add(o)
    return name


def call(e, mem, name, args, ins):
    d = e.dom
    h = getattr(e, 'ext', {}).get(name)
    if h:
        r = h(e, mem, args, ins)
        if r is not NotImplemented:
            return r
    if name in ('memcpy', 'memmove'):
        memcpy(e, mem, args[0], args[1], args[2], ins, name == 'memmove')
        return args[0]
    if name == 'memset':
        memset(e, mem, args[0], args[1], args[2], ins)
        return args[0]
    if name == 'memcmp':
        t, u = 0, False
        n = d.nu(args[2], 64)
        for p in args[:2]:
            for o, off in rangecheck(e, mem, p, n, ins, False):
                hi = off.hi + n.hi
                if isinstance(o.size, int):
                    hi = min(hi, o.size)
                bt, bu = blocktaint(e, o, off.lo, hi)
                t |= bt
                u = u or bu
        if t & interp.SECRET:
            e.ev('secret-memcmp', 'memcmp on secret data', ins)
        if u:
            e.ev('undef-branch', 'memcmp on uninitialised data', ins)
        return d.fresh(-(1 << 31), (1 << 31) - 1, 'memcmp', t, u)
    if name == 'malloc':
        n = d.nu(args[0], 64)
        return Ptr({heap(e, mem, n, ins, name, 16): C(0), 'null': C(0)})
    if name == 'calloc':
        n = d.mul(args[0], args[1])
        h = heap(e, mem, n, ins, name, 16)
        mem.objs[h].default = 'zero'
        return Ptr({h: C(0), 'null': C(0)})
    if name in ('posix_memalign', 'aligned_alloc', '_mm_malloc'):
        al = args[1] if name != 'aligned_alloc' else args[0]
        n = d.nu(args[2] if name == 'posix_memalign' else args[1], 64)
        h = heap(e, mem, n, ins, name, al.lo if al.isc() else 1)
        if name == 'posix_memalign':
            # 0 with *p set, or an error number with *p unspecified
            for o, off in e.access(mem, args[0], 8, ins, True):
                if off.isc():
                    e.wr(mem.w(o.name), off.lo, 8, Ptr({h: C(0)}))
            return d.fresh(0, 22, 'memalign')
        return Ptr({h: C(0), 'null': C(0)})
    if name in ('free', '_mm_free'):
        p = args[0]
        if isinstance(p, Ptr):
            for o, off in p.b.items():
                if o == 'null':
                    continue
                ob = mem.objs.get(o)
                if ob is None:
                    e.ev('dangling', 'free of dead object ' + o, ins)
                    continue
                if ob.kind != 'heap':
                    if ob.kind != 'param':
                        e.ev('bad-free', 'free of ' + e.oname(ob), ins)
                    continue
                if not off.isc() or off.lo != 0:
                    e.ev('bad-free', 'free of an interior pointer', ins)
                if len(p.b) == 1 or set(p.b) == {o, 'null'}:
                    mem.objs.pop(o, None)
        return None
    if name in ('printf', 'fprintf', 'puts', 'putchar', 'fputc', 'putc', 'fflush', 'perror', 'fputs', 'fwrite'):
        return d.top(32, 0, False, name)
    if name in ('open', 'close', 'read', 'fopen', 'fclose', 'getrandom'):
        e.ev('sys', name, ins)
        if name == 'read' or name == 'getrandom':
            p, n = (args[1], d.nu(args[2], 64)) if name == 'read' else (args[0], d.nu(args[1], 64))
            for o, off in rangecheck(e, mem, p, n, ins, True):
                weakrange(e, mem.w(o.name), off, n, 0, False)
            hi = min(n.hi, (1 << 63) - 1)
            if d.rel and n.p is not None:
                r = d.relatom(-1, hi, 'nread')
                if r.p is not None:
                    mem.facts = tuple(mem.facts) + (d.nfact(r.p.add(n.p, -1)),)
                    d.facts = mem.facts
                return r
            return d.fresh(-1, hi, 'nread')
        return d.fresh(-1, (1 << 31) - 1, name)
    if name == '__errno_location':
        if 'errno' not in mem.objs:
            mem.add(interp.Obj('errno', 4, 'libc', 'unknown'))
        return Ptr({'errno': C(0)})
    if name in ('abort', 'exit', '_exit', '__assert_fail'):
        raise interp.Bottom(name)
    raise Unsupported('call to external function ' + name)
