"""Field element representations and their reading as integers."""
from dom import V, Ptr, Vec, C, Poly, Dom, ZERO, pconst
from interp import Engine, Mem, Obj

P255 = (1 << 255) - 19
P448 = (1 << 448) - (1 << 224) - 1


class Rep:
    def __init__(self, name, p, n, size, limbs, widths, full):
        self.name, self.p, self.n, self.size, self.limbs, self.widths, self.full = name, p, n, size, limbs, widths, full
        self.at = {}
        for e, l in enumerate(limbs):
            for i, (off, ex) in enumerate(l):
                self.at[off] = (e, i)
        self.nbytes = 32 if p == P255 else 56
        # every limb of 2p as subtraction constants use it: 2^(w+1) - 2 (lowest one 2^(w+1) - 2c)

    def cls(self, c):
        """limb upper bounds for a class"""
        w = self.widths
        if self.full:
            return [(1 << 64) - 1] * len(w)
        if c == 'C':     # fully carried
            return [(1 << k) - 1 for k in w]
        if c == 'T':     # after one carry chain
            return [(1 << k) + (1 << (k - 5)) for k in w]
        if c == 'S':     # may be subtracted: not above the limbs of 2p
            if self.p == P255:
                return [(1 << (k + 1)) - (38 if i == 0 else 2) for i, k in enumerate(w)]
            return [(1 << (k + 1)) - 2 for k in w]
        if c == 'L':     # sum or difference of two tight elements
            return [3 * (1 << k) + (1 << (k - 3)) for k in w]
        if c == 'W':     # unreduced product
            return [(1 << 63) - 1] * len(w)
        raise KeyError(c)


def redradix(p):
    if p == P255:
        ex = [0, 26, 51, 77, 102, 128, 153, 179, 204, 230]
        w = [26, 25, 26, 25, 26, 25, 26, 25, 26, 25]
        h = 5
    else:
        ex = [28 * i for i in range(16)]
        w = [28] * 16
        h = 8
    nd = len(ex)
    # position of digit i in the word sequence [h0,h_h,h1,h_{h+1},...]
    pos = {}
    for i in range(h):
        pos[i] = 2 * i
        pos[i + h] = 2 * i + 1
    one = [[(8 * pos[i], ex[i]) for i in range(nd)]]
    two = [[(32 * (pos[i] // 2) + 8 * (pos[i] % 2) + 16 * e, ex[i]) for i in range(nd)] for e in range(2)]
    four = [[(32 * pos[i] + 8 * e, ex[i]) for i in range(nd)] for e in range(4)]
    n = '255' if p == P255 else '448'
    s1 = 8 * 4 * ((nd + 3) // 4)
    return (Rep(n + '/1w_red', p, 1, s1, one, w, False), Rep(n + '/2w_red', p, 2, 16 * nd, two, w, False), Rep(n + '/4w_red', p, 4, 32 * nd, four, w, False))


def fullradix(p):
    nw = 4 if p == P255 else 7
    n = '255' if p == P255 else '448'
    return Rep(n + '/1w_full', p, 1, 8 * nw, [[(8 * i, 64 * i) for i in range(nw)]], [64] * nw, True)


REPS = {}
for P, G in ((P255, 'Fp25519'), (P448, 'Fp448')):
    r1, r2, r4 = redradix(P)
    REPS[G] = {'_1w_full': fullradix(P), '_1w_red': r1, '_2w_red': r2, '_4w_red': r4}


def wide(rep, elems=1):
    """double-width product buffer of a fullradix representation"""
    nw = len(rep.widths)
    return Rep(rep.name + '/wide', rep.p, elems, 16 * nw * elems, [[(16 * nw * e + 8 * i, 64 * i) for i in range(2 * nw)] for e in range(elems)], [64] * (2 * nw), True)


def multi(rep, elems):
    nw = len(rep.widths)
    return Rep(rep.name + 'x%d' % elems, rep.p, elems, 8 * nw * elems, [[(8 * nw * e + 8 * i, 64 * i) for i in range(nw)] for e in range(elems)], [64] * nw, True)


def mkin(eng, mem, name, rep, cls=None, align=32, bounds=None):
    o = Obj(name, rep.size, 'param', 'input', align=align)
    b = bounds or rep.cls(cls or 'L')

    def lohi(off, n):
        k = rep.at.get(off)
        if k is not None and n == 8:
            return 0, b[k[0]][k[1]] if isinstance(b[0], list) else b[k[1]]
        return None
    o.lohi = lohi
    o.info = name
    mem.add(o)
    # fix the granularity of the input
    for off in rep.at:
        eng.input_read(o, off, 8)
    return Ptr({name: C(0)})


def mkout(eng, mem, name, size, align=32):
    o = Obj(name, size, 'param', 'undef', align=align)
    o.info = name
    mem.add(o)
    return Ptr({name: C(0)})


def limbs(eng, mem, name, rep, e=0, base=0):
    o = mem.objs[name]
    return [eng.dom.nu(eng.rd(o, base + off, 8), 64) for off, ex in rep.limbs[e]]


def inlimbs(eng, name, rep, e=0):
    return [eng.inputs[name][off][1] for off, ex in rep.limbs[e]]


def val(rep, ls, e=0):
    """Poly value of a list of limb Vs"""
    d = {}
    for v, (off, ex) in zip(ls, rep.limbs[e]):
        if v.p is None:
            return None
        for m, c in v.p.d.items():
            x = d.get(m, 0) + (c << ex)
            if x:
                d[m] = x
            else:
                del d[m]
    return Poly(d)


def modp(poly, p):
    return Poly({m: c % p for m, c in poly.d.items() if c % p})
