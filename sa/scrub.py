"""Erasure of private-key copies, and provenance of random keys."""
import build, api
from report import Check, Broken
from interp import SECRET
from dom import V, Ptr, C, Dom, pconst
from interp import Mem
import interp, libc
from ir import loc_str

DH = ('X25519.keygen', 'X25519.shared', 'X25519_x64.keygen', 'X25519_x64.shared', 'X448.keygen', 'X448.shared')


def bytes_tainted(e, o, lo, hi):
    bad = []
    for f in range(lo, hi):
        for z in range(8):
            c = o.cells.get(f - z)
            if c is not None:
                if c[0] > z and getattr(c[1], 't', 0) & SECRET:
                    bad.append(f)
                break
    if any(w[0] < hi and w[1] > lo and w[2] & SECRET for w in o.weak or ()):
        bad.append(lo)
    return bad


def scrub_one(config, idx):
    m = build.module(config)
    en = api.entries(m)[idx]
    key = [a for a in en.args if a.taint & SECRET]
    copies = {}      # object -> set of bytes that received private-key bytes
    lastw = {}       # object -> {byte: (volatile?, ins)}
    res = {'id': en.id, 'config': config, 'frames': [], 'err': None}
    eng = []
    names = set()

    def setup(e, mem, objs, args):
        names.update(o.name for n, o in objs.items() if n in [k.name for k in key])
        eng.append(e)
        e.access_hook = acc
        e.frame_exit = fexit

    def acc(o, off, size, ins, write):
        n = size if isinstance(size, int) else size.hi
        if write and o.kind == 'alloca':
            v = bool(ins.get('vol')) if ins else False
            w = lastw.setdefault(o.name, {})
            if n > 4096:
                return
            for f in range(off.lo, off.hi + n):
                w[f] = (v, ins)

    def mark(o, lo, n):
        if o.kind == 'alloca':
            copies.setdefault(o.name, set()).update(range(lo, lo + n))

    def iskey(v):
        return isinstance(v, V) and id(v) in ids

    ids = {}

    def fexit(e, fr, mem, ret):
        for name in fr.locals:
            if name not in copies:
                continue
            o = mem.objs.get(name)
            if o is None:
                continue
            bs = sorted(copies[name])
            bad = [f for f in bs if bytes_tainted(e, o, f, f + 1)]
            soft = [f for f in bs if f in lastw.get(name, {}) and not lastw[name][f][0]]
            res['frames'].append((fr.f.name, o.info, len(bs), len(bad), len(soft), loc_str(lastw[name][soft[0]][1]) if soft else '', tuple(e.stack)))

    omem = libc.memcpy
    owr = interp.Engine.wr
    ord_ = interp.Engine.rd

    def wr(self, o, off, size, v):
        if isinstance(v, V) and id(v) in ids and o.kind == 'alloca':
            mark(o, off, size)
        return owr(self, o, off, size, v)

    def rd(self, o, off, size):
        v = ord_(self, o, off, size)
        if o.name in names and isinstance(v, V) and v.t & SECRET:
            ids[id(v)] = v
        elif o.name in copies and isinstance(v, V) and v.t & SECRET and all(f in copies[o.name] for f in range(off, off + size)) and id(v) in ids:
            pass
        return v
    interp.Engine.wr, interp.Engine.rd = wr, rd
    try:
        e, mem, ret, objs, outs = api.run(m, en, setup=setup)
        res['counts'] = e.counts
    except Exception as ex:
        import traceback
        res['err'] = '%s: %s' % (type(ex).__name__, ex)
        res['tb'] = traceback.format_exc()
    finally:
        interp.Engine.wr, interp.Engine.rd = owr, ord_
    return res


def _t(a):
    import sys
    sys.setrecursionlimit(100000)
    return scrub_one(*a)


def P02():
    from multiprocessing import get_context
    ck = Check('P02', 'proof', 'at the return of the function that made it, no local copy of the private scalar of a key agreement or Diffie-Hellman key generation still holds key-dependent bytes, and the overwriting stores are volatile')
    tasks = []
    for c in build.CONFIGS:
        for i, en in enumerate(api.entries(build.module(c))):
            if en.id in DH:
                tasks.append((c, i))
    if len(tasks) != len(DH) * len(build.CONFIGS):
        raise Broken('P02: entry points missing')
    with get_context('fork').Pool(8) as pool:
        rs = pool.map(_t, tasks, 1)
    ncopies = 0
    for r in sorted(rs, key=lambda r: (r['config'], r['id'])):
        if r['err']:
            ck.lost.append('%s %s %s' % (r['config'], r['id'], r['err']))
        n = 0
        for fn, info, total, bad, soft, loc, stack in r['frames']:
            n += 1
            ncopies += 1
            ck.ob('%s: %s is erased' % (r['id'], info), bad == 0, '%d of %d copied key bytes remain when %s returns [%s]' % (bad, total, fn, r['config']), ' > '.join(stack))
            if not bad:
                ck.ob('%s: erasure of %s is volatile' % (r['id'], info), soft == 0, '%d bytes were last written by ordinary stores, which may be removed as dead [%s]' % (soft, r['config']), loc)
        ck.count('entry points interpreted')
        ck.count('copies of the private scalar', n)
        for k, v in r.get('counts', {}).items():
            ck.count(k, v)
    if not ncopies and not ck.lost:
        raise Broken('P02: no copy of a private key found')
    ck.assume.append('registers and values derived from the scalar (recoded digits, ladder state) are outside the property')
    return ck.finish()


# ---------------------------------------------------------------- random keys
def rng_one(config, idx):
    m = build.module(config)
    en = api.entries(m)[idx]
    out = {'id': en.id, 'config': config, 'bad': [], 'err': None, 'reads': 0, 'exits': 0, 'inread': False}
    name = en.args[0].name
    size = en.args[0].size

    def st(e, mem):
        return mem.w('rng')

    def setup(e, mem, objs, args):
        d = e.dom
        o = interp.Obj('rng', 16, 'ghost', 'zero')
        mem.add(o)
        e.wr(o, 0, 8, C(0))          # bytes filled so far
        paths = {}

        def open_(e, mem, a, ins):
            out['opens'] = out.get('opens', 0) + 1
            p = a[0]
            s = None
            if isinstance(p, Ptr) and len(p.b) == 1:
                (n, off), = p.b.items()
                ob = e.getobj(mem, n)
                if ob is not None and ob.image is not None and off.isc():
                    s = ob.image[off.lo:].split(b'\0')[0]
            if s not in (b'/dev/urandom', b'/dev/random'):
                out['bad'].append(('opens %r instead of the random device' % s, loc_str(ins)))
            x = d.nu(a[1], 32)
            if not x.isc() or x.lo & 3:
                out['bad'].append(('device not opened for reading', loc_str(ins)))
            e.multi = [(d.fresh(0, (1 << 31) - 1, 'fd'), mem), (C(-1), mem.copy())]
            return e.multi[0][0]

        def read(e, mem, a, ins):
            out['reads'] += 1
            n = d.nu(a[2], 64)
            fd = d.ns(a[0], 32)
            out['inread'] = True
            acc = libc.rangecheck(e, mem, a[1], n, ins, True)
            out['inread'] = False
            g = e.rd(mem.objs['rng'], 0, 8)
            ok = len(acc) == 1
            for o, off in acc:
                if o.name != name:
                    ok = False
                    libc.weakrange(e, mem.w(o.name), off, n, 0, False)
                    continue
                q = off.p.add(g.p, -1) if off.p is not None and g.p is not None else None
                if q is None or d.relupper(q, 0) > 0:
                    ok = False
                libc.weakrange(e, mem.w(o.name), off, n, 0, False)
            if not ok:
                out['bad'].append(('the destination of a read does not start within the part already filled', loc_str(ins)))
            # some bytes, end of file, failure: only the first extends the filled part
            r = d.relatom(1, max(1, min(n.hi, (1 << 63) - 1)), 'nread')
            m2, m3 = mem.copy(), mem.copy()
            off = acc[0][1] if acc else C(0)
            g2 = d.add(off, r)
            if ok:
                e.wr(mem.w('rng'), 0, 8, g2)
            if n.p is not None and r.p is not None:
                mem.facts = tuple(mem.facts) + (d.nfact(r.p.add(n.p, -1)),)
            e.multi = [(r, mem), (C(-1), m2), (C(0), m3)]
            d.facts = mem.facts
            return r
        e.ext = {'open': open_, 'read': read}
        for bad in ('rand', 'random', 'drand48', 'lrand48', 'time', 'srand'):
            e.ext[bad] = lambda e, mem, a, ins, b=bad: (out['bad'].append(('calls %s' % b, loc_str(ins))), d.top(32))[1]

        def getrandom(e, mem, a, ins):
            return read(e, mem, [C(0), a[0], a[1]], ins)
        e.ext['getrandom'] = getrandom

        def acc(o, off, sz, ins, write):
            # other stores may only touch bytes the device has still to deliver
            if o.name != name or not write or out['inread']:
                return
            g = e.rd(e.hookmem.objs['rng'], 0, 8)
            q = g.p.add(off.p, -1) if off.p is not None and g.p is not None else None
            if not (off.lo >= g.hi or q is not None and d.relupper(q, 0) <= 0):
                out['bad'].append(('key bytes are stored by other means than the device', loc_str(ins)))
        e.access_hook = acc

    try:
        e, mem, ret, objs, outs = api.run(m, en, setup=setup)
        for r, mm in outs:
            out['exits'] += 1
            g = e.rd(mm.objs['rng'], 0, 8)
            e.dom.facts = mm.facts
            q = pconst(size).add(g.p, -1) if g.p is not None else None
            if not (g.isc() and g.lo >= size) and (q is None or e.dom.relupper(q, 0) > 0):
                out['bad'].append(('returns although only %s of %d bytes are known to come from the device' % (g, size), en.fn))
        out['counts'] = e.counts
        out['dead'] = sorted(e.deadpaths)
    except Exception as ex:
        import traceback
        out['err'] = '%s: %s' % (type(ex).__name__, ex)
        out['tb'] = traceback.format_exc()
    return out


def P16():
    ck = Check('P16', 'proof', 'whenever random key generation returns, every byte of the key was delivered by a successful read of the random device')
    n = 0
    for c in build.CONFIGS:
        m = build.module(c)
        for i, en in enumerate(api.entries(m)):
            if en.id.split('.')[-1] != 'randKey':
                continue
            r = rng_one(c, i)
            n += 1
            if r['err']:
                ck.lost.append('%s %s %s' % (c, en.id, r['err']))
                continue
            if not r['reads']:
                ck.broken.append('%s: no read of a device seen' % en.id)
            ck.ob('%s: every returned byte comes from the device' % en.id, not r['bad'], '; '.join(x[0] for x in r['bad'][:3]), '; '.join(str(x[1]) for x in r['bad'][:3]))
            ck.count('paths that end in abort', len(r['dead']))
            for k, v in r['counts'].items():
                ck.count(k, v)
    if n < 8 * len(build.CONFIGS):
        raise Broken('P16: only %d random key functions' % n)
    ck.minimum = 8
    ck.assume.append('read(2) and open(2) behave as specified by POSIX; the quality of the device is not examined')
    return ck.finish()
