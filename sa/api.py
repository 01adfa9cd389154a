"""Entry points of the library and abstract callers for them."""
import build, slots, contracts
from dom import Dom, V, Ptr, C, Poly, pconst
from interp import Engine, Mem, Obj, SECRET

PUB, SEC = 0, SECRET
NMAX = 1 << 60

XF = ['keygen', 'shared', 'allocKey', 'freeKey', 'randKey', 'printKey']
SF = ['keygen', 'sign', 'verify', 'allocKey', 'allocSignature', 'randKey', 'printKey', 'printSignature', 'freeKey', 'freeSignature']
TABLES = {
    'X25519': ([('X_ECDH', f) for f in XF], 32, 0),
    'X25519_x64': ([('X_ECDH', f) for f in XF], 32, 0),
    'X448': ([('X_ECDH', f) for f in XF], 56, 0),
    'Ed25519': ([('struct _struct_Ed255', '%s.%s' % (v, f)) for v in ('Pure', 'PreHash', 'Context') for f in SF], 32, 64),
    'Ed448': ([('struct _struct_Ed448', '%s.%s' % (v, f)) for v in ('PureContext', 'PreHash') for f in SF], 57, 114),
}


class Arg:
    """One parameter: kind in 'in','out','inout' (buffer) / 'len' / 'file' / 'int'."""
    def __init__(self, name, kind, size=0, taint=0, align=1, default=None, rng=None):
        self.name, self.kind, self.size, self.taint, self.align, self.rng = name, kind, size, taint, align, rng
        self.default = default or ('undef' if kind == 'out' else 'input')


def I(name, size, taint=PUB, align=1):
    return Arg(name, 'in', size, taint, align)


def O(name, size, align=1):
    return Arg(name, 'out', size, PUB, align)


def L(name):
    return Arg(name, 'len')


class Entry:
    def __init__(self, id, fn, args, ret=None, table=None):
        self.id, self.fn, self.args, self.ret, self.table = id, fn, args, ret, table


def tables(m):
    r = {}
    for g, (pairs, ks, ss) in TABLES.items():
        if g not in m.globals:
            continue
        r[g] = slots.table(m, g, pairs, ['faz_ecdh_avx2.h', 'faz_eddsa_avx2.h'])
    return r


def entries(m, missing=None):
    """All public entry points with their abstract argument shapes."""
    out = []
    missing = missing if missing is not None else []
    for g, t in tables(m).items():
        ks, ss = TABLES[g][1:]
        for path, fn in t.items():
            f = path.split('.')[-1]
            if fn is None:
                missing.append('%s.%s' % (g, path))
                continue
            if f == 'keygen':
                a = [O('public key', ks), I('private key', ks, SEC)]
            elif f == 'shared':
                a = [O('shared secret', ks), I('session key', ks), I('private key', ks, SEC)]
            elif f in ('sign', 'verify'):
                a = [I('message', 'mlen'), L('mlen')]
                if not path.startswith('Pure.'):
                    a += [I('context', 'clen'), L('clen')]
                a += [I('public key', ks)]
                a = [O('signature', ss)] + a + [I('private key', ks, SEC)] if f == 'sign' else a + [I('signature', ss)]
            elif f.startswith('alloc'):
                a = []
            elif f.startswith('rand'):
                a = [O('key', ks)]
            elif f.startswith('print'):
                a = [Arg('file', 'file'), I('key', ss if 'Sig' in f else ks)]
            elif f.startswith('free'):
                a = [Arg('block', 'heap', ks)]
            out.append(Entry('%s.%s' % (g, path), fn, a))
            if f.startswith('free'):
                out.append(Entry('%s.%s(NULL)' % (g, path), fn, [Arg('block', 'null')]))
    F, R1, R2 = 32, 96, 160
    hs = [('h2c25519_x64', [O('P', 64, 32), I('msg', 'mlen'), L('mlen')]),
          ('h2c25519_avx2', [O('P', 64, 32), I('msg', 'mlen'), L('mlen')]),
          ('hash_to_field', [O('u', F, 8), Arg('prefix', 'int', rng=(0, 255)), I('msg', 'mlen'), L('mlen')]),
          ('hash_to_field_2w', [O('u0', F, 8), O('u1', F, 8), I('msg', 'mlen'), L('mlen')]),
          ('map_to_curve', [O('P', 128, 32), I('u', F, align=8)]),
          ('map_to_curve_2w', [O('P', 640, 32), I('u0u1', R2, align=32)]),
          ('isOnCurve', [I('P', 64, align=32)]),
          ('areEqual', [Arg(x, 'inout', 64, PUB, 32) for x in 'PQ']),
          ('print_point', [Arg('file', 'file'), I('P', 64, align=32)])]
    for n, a in hs:
        if n in m.funcs and not m.funcs[n].decl:
            out.append(Entry(n, n, a))
        else:
            missing.append(n)
    return out


def run(m, en, dom=None, setup=None, refined=False, maxund=1):
    """Interpret the entry point on every argument of its shape; returns (engine, memory, result, objects)."""
    d = dom or Dom(False, maxterms=16, rel=True)
    e = Engine(m, d, max_undecided=maxund)
    e.obligations = set()
    contracts.install(m, e, e.obligations)
    mem = Mem()
    lens = {}
    for a in en.args:
        if a.kind == 'len':
            lens[a.name] = d.relatom(0, NMAX, a.name) if d.rel else d.fresh(0, NMAX, a.name)
    args = []
    objs = {}
    for a in en.args:
        if a.kind == 'len':
            args.append(lens[a.name])
        elif a.kind == 'file':
            o = Obj('FILE', 216, 'file', 'unknown')
            mem.add(o)
            args.append(Ptr({'FILE': C(0)}))
        elif a.kind == 'int':
            args.append(d.fresh(a.rng[0], a.rng[1], a.name))
        elif a.kind == 'null':
            args.append(C(0))
        elif a.kind == 'heap':
            o = Obj(a.name, a.size, 'heap', 'input', align=32)
            o.info = a.name
            mem.add(o)
            args.append(Ptr({a.name: C(0)}))
        else:
            size = lens[a.size] if isinstance(a.size, str) else a.size
            o = Obj(a.name, size, 'param', a.default, align=a.align, taint=a.taint)
            o.info = 'argument ' + a.name
            mem.add(o)
            objs[a.name] = o
            args.append(Ptr({a.name: C(0)}))
    if setup:
        setup(e, mem, objs, args)
    r = e.call(en.fn, args, mem, None, True)
    outs = e.multi or [r]
    e.multi = None
    ret, mem = outs[0]
    for x, y in outs[1:]:
        ret = d.join(ret, x) if ret is not None else x
    return e, mem, ret, objs, outs


if __name__ == '__main__':
    import sys, time
    import os
    m = build.module(os.environ.get('CFG', 'adx'))
    miss = []
    for en in entries(m, miss):
        if len(sys.argv) > 1 and not any(x in en.id or x == '=' + en.id for x in sys.argv[1:]):
            continue
        t = time.time()
        try:
            e, mem, ret, objs, outs = run(m, en)
            print('%-32s %-28s %.1fs ret=%s ins=%d widened' % (en.id, en.fn, time.time() - t, ret, e.nins))
            for x in list(e.events.values())[:12]:
                print('    ', x)
        except Exception as ex:
            import traceback
            print(en.id, 'EXC', repr(ex)[:300])
            if '-t' in sys.argv: traceback.print_exc()
    print('missing', miss)
