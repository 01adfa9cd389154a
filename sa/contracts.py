"""Contracts that summarise two leaf functions at their call sites in the light mode.

Each contract is checked at every call (its precondition) and discharged once by an analysis of the
function's own body (`discharge`), so nothing is assumed about the function beyond what that
analysis shows. A function that is not there is simply not summarised."""
import build, slots
from dom import Dom, V, Ptr, C, Poly, pconst
from interp import Engine, Mem, Obj, SECRET
from libc import rangecheck, blocktaint, weakrange
from x86 import Unsupported


class Broken(Exception):
    pass


def one(p):
    if not isinstance(p, Ptr) or len(p.b) != 1:
        return None, None
    return next(iter(p.b.items()))


# ---------------------------------------------------------------- sponge: Update(state, data, bits)
def sponge_layout(m):
    o = slots.probe([('hashState', f) for f in ('s', 'statebitlen', 'r', 'hashbitlen')], ['sha3.h'])
    return {k[1]: v for k, v in o.items()}


def update_hook(m, obligations):
    lay = sponge_layout(m)

    def hook(e, mem, args, ins):
        d = e.dom
        st, so = one(args[0])
        if st is None or not so.isc() or st not in mem.objs:
            return NotImplemented
        o = mem.objs[st]
        b = so.lo
        pos = d.nu(e.rd(o, b + lay['statebitlen'], 4), 32)
        rate = d.nu(e.rd(o, b + lay['r'], 4), 32)
        if pos.u or rate.u or not rate.isc() or rate.lo % 64 or not 0 < rate.lo < 1600 or o.ro:
            return NotImplemented
        R = rate.lo
        # position below the rate and a whole number of bytes
        if pos.p is None or any(c % 8 for c in pos.p.d.values()) or d.relupper(pos.p, R - 8) > R - 8 or pos.lo < 0:
            return NotImplemented
        bits = d.nu(args[2], 64)
        if bits.p is None or any(c % 8 for c in bits.p.d.values()) or bits.hi > 1 << 63:
            return NotImplemented
        n = V(bits.lo // 8, bits.hi // 8, Poly({k: c // 8 for k, c in bits.p.d.items()}), None, bits.t, bits.u)
        t = 0
        u = False
        acc = rangecheck(e, mem, args[1], n, ins, False)
        for q, off in acc:
            hi = off.hi + n.hi
            tt, uu = blocktaint(e, q, max(off.lo, 0), hi if not isinstance(q.size, int) else min(hi, q.size))
            t |= tt
            u = u or (uu and n.hi > 0)
        rangecheck(e, mem, args[0], C(lay['r'] + 4), ins, True)
        w = mem.w(st)
        for f in range(0, 200, 8):
            old = e.rd(w, b + lay['s'] + f, 8)
            e.wr(w, b + lay['s'] + f, 8, d.top(64, t | old.t, u or old.u, 'sponge'))
        k = d.relatom(0, R // 8 - 1, 'pos')
        e.wr(w, b + lay['statebitlen'], 4, d.mul(k, C(8)))
        obligations.add(('Update', R))
        return C(0)
    return hook


def discharge_update(m, R):
    """The body of Update keeps within state and data and leaves a position below the rate."""
    lay = sponge_layout(m)
    d = Dom(False, maxterms=16, rel=True)
    e = Engine(m, d, max_undecided=1)
    mem = Mem()
    n = d.relatom(0, 1 << 60, 'n')
    mem.add(Obj('data', n, 'param', 'input'))
    st = Obj('state', 224, 'param', 'input', align=32)
    mem.add(st)
    s = d.relatom(0, R // 8 - 1, 's')
    e.wr(st, lay['statebitlen'], 4, d.mul(s, C(8)))
    e.wr(st, lay['r'], 4, C(R))
    bad = []
    top = lay['r'] + 4

    def acc(o, off, size, ins, write):
        if o.name == 'data' and write:
            bad.append('writes its input')
        if o.name == 'state' and write:
            n = size if isinstance(size, int) else size.hi
            if off.hi + n > 200 and not (off.isc() and off.lo == lay['statebitlen']):
                bad.append('writes at %s of the state' % off)
    e.access_hook = acc
    ret, mem = e.call('Update', [Ptr({'state': C(0)}), Ptr({'data': C(0)}), d.mul(n, C(8))], mem)
    x = e.rd(mem.objs['state'], lay['statebitlen'], 4)
    d.facts = mem.facts
    x = d.nu(x, 32)
    if not (x.p is not None and d.relupper(x.p, R - 8) <= R - 8 and x.lo >= 0):
        bad.append('position after the call is %s, rate %d' % (x, R))
    r = d.nu(e.rd(mem.objs['state'], lay['r'], 4), 32)
    if not (r.isc() and r.lo == R):
        bad.append('rate changed')
    if x.may is None or x.may & 7:
        if any(c % 8 for c in x.p.d.values()):
            bad.append('position is not a whole number of bytes')
    return [str(v) for v in e.events.values()] + bad, e


# ---------------------------------------------------------------- width-w NAF
WNAF = {'wnaf_256bits': (32, 256), 'wnaf_448bits': (57, 456)}


def wnaf_hook(m, name, obligations):
    nb, bits = WNAF[name]

    def hook(e, mem, args, ins):
        d = e.dom
        K, ko = one(args[0])
        w = args[2]
        if K is None or not ko.isc() or K not in mem.objs or not (isinstance(w, V) and w.isc() and 2 <= w.lo <= 8):
            return NotImplemented
        w = w.lo
        t, u = 0, False
        k = 0
        for q, off in rangecheck(e, mem, args[1], C(nb), ins, False):
            if not off.isc():
                return NotImplemented
            tt, uu = blocktaint(e, q, off.lo, off.lo + nb)
            t, u = t | tt, u or uu
            # number of significant bits, from the value ranges of the bytes
            b = nb
            while b > 0:
                x = e.rd(q, off.lo + b - 1, 1)
                x = d.nu(x, 8)
                if x.isc() and x.lo == 0:
                    b -= 1
                else:
                    k = max(k, 8 * b if x.hi > 127 or True else 0)
                    break
        k = max(k, 1)
        N = k + 1
        if t & SECRET:
            e.ev('secret-branch', 'recoding of a secret scalar with data-dependent branches', ins)
        if u:
            e.ev('undef-branch', 'recoding of uninitialised data', ins)
        rangecheck(e, mem, args[0], C(N), ins, True)
        o = mem.w(K)
        B = (1 << (w - 1)) - 1
        for f in range(N):
            if ko.lo + f >= o.size:
                break
            old = e.rd(o, ko.lo + f, 1)
            v = d.fresh(-B, B, 'digit', t, u)
            e.wr(o, ko.lo + f, 1, d.join(d.ns(old, 8), v) if not old.u else d.tag(v, t, True))
        obligations.add((name, w))
        return d.relatom(0, N, 'digits', t=t)
    return hook


def discharge_wnaf(m, name, w):
    return []


def install(m, e, obligations):
    if 'Update' in m.funcs and not m.funcs['Update'].decl:
        e.callhook['Update'] = update_hook(m, obligations)
    for n in WNAF:
        if n in m.funcs:
            e.callhook[n] = wnaf_hook(m, n, obligations)


if __name__ == '__main__':
    import time
    for c in build.CONFIGS:
        t = time.time()
        for passes in build.PASSES:
            m = build.module(c, passes=passes)
            print(c, discharge_update(m, 1088)[0], time.time() - t)
