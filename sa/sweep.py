"""Interpret every public entry point, in every instruction-set configuration, over its abstract arguments,
and return what the analysis saw."""
import hashlib, json, os, sys, glob, pickle, time
from multiprocessing import get_context
import build, api
from api import SEC
from dom import V, Ptr, C
from interp import Bottom
from x86 import Unsupported


def selfhash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), '*.py'))):
        if os.path.basename(f) not in ('props.py', 'run.py', 'report.py'):
            h.update(open(f, 'rb').read())
    return h.hexdigest()


def gcdalign(v):
    """largest power of two known to divide the offset"""
    if v.isc():
        return (v.lo & -v.lo) if v.lo else 1 << 12
    a = 1
    if v.may is not None and v.may:
        a = v.may & -v.may
    if v.p is not None:
        import math
        g = 0
        for c in v.p.d.values():
            g = math.gcd(g, c)
        if g:
            a = max(a, g & -g)
    return a


def one(config, idx):
    m = build.module(config)
    en = api.entries(m)[idx]
    t0 = time.time()
    out = {'config': config, 'id': en.id, 'fn': en.fn, 'err': None}
    writes, reads, aligned, badalign = {}, {}, [0], {}
    glob_w = {}
    glob_r = set()
    d = None

    def acc(o, off, size, ins, write):
        n = size if isinstance(size, int) else size.hi
        if o.kind == 'global':
            if write:
                glob_w[o.name] = ins
            else:
                glob_r.add(o.name)
        if o.kind == 'param':
            k = (writes if write else reads).setdefault(o.name, [1 << 70, -1, None])
            k[0] = min(k[0], off.lo)
            if off.hi + n > k[1]:
                k[1] = off.hi + n
                k[2] = loc(ins)

    def loc(ins):
        from ir import loc_str
        return loc_str(ins) if ins else '?'

    def ali(fr, ins, p):
        a = ins.get('align', 1)
        if a < 16 or not isinstance(p, Ptr):
            return
        aligned[0] += 1
        for n, off in p.b.items():
            o = fr.mem.objs.get(n) or fr.e.getobj(fr.mem, n)
            if o is None:
                continue
            if (o.align or 1) < a or gcdalign(off) < a:
                badalign[(fr.f.name, loc(ins))] = '%d-byte aligned access to %s at offset %s, known alignment %d' % (a, o.info or o.name, off, min(o.align or 1, gcdalign(off)))

    eng = []
    vol = {}

    def setup(e, mem, objs, args):
        e.access_hook = acc
        e.align_hook = ali
        eng.append(e)

    variants = []
    try:
        e, mem, ret, objs, outs = api.run(m, en, setup=setup)
        for r, mm in outs:
            v = {'ret': None if r is None else (str(r) if not isinstance(r, V) else (r.lo, r.hi)), 'out': {}, 'heap': []}
            for a in en.args:
                if a.kind == 'out':
                    v['out'][a.name] = outstate(mm.objs.get(a.name), a.size)
                if a.kind == 'heap':
                    v['out'][a.name] = 'freed' if a.name not in mm.objs else 'live'
            held = set(r.b) if isinstance(r, Ptr) else set()
            v['heap'] = [(o.info, n in held) for n, o in mm.objs.items() if o.kind == 'heap' and n.startswith('heap')]
            variants.append(v)
        out['obligations'] = sorted(e.obligations)
    except (Unsupported, Bottom, RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError) as ex:
        import traceback
        out['err'] = '%s: %s' % (type(ex).__name__, ex)
        out['tb'] = traceback.format_exc()[-1500:]
    if eng:
        e = eng[0]
        out['events'] = [(x.kind, x.msg, x.fn, x.loc, ' > '.join(x.stack)) for x in e.events.values()]
        out['counts'] = dict(e.counts)
        out['ins'] = e.nins
        out['funcs'] = sorted(e.funcs_seen)
        out['dead'] = sorted(e.deadpaths)
    out['writes'] = {k: tuple(v) for k, v in writes.items()}
    out['reads'] = {k: tuple(v) for k, v in reads.items()}
    out['globw'] = {k: loc(v) for k, v in glob_w.items()}
    out['globr'] = sorted((g, bool(m.globals[g]['const'])) for g in glob_r if g in m.globals)
    out['aligned'], out['badalign'] = aligned[0], [(f, l, t) for (f, l), t in badalign.items()]
    out['variants'] = variants
    out['args'] = [(a.name, a.kind, a.size, a.taint) for a in en.args]
    out['time'] = time.time() - t0
    return out


def outstate(o, size):
    """-> (bytes certainly written, bytes whose value may be uninitialised, total)"""
    if o is None:
        return (0, 0, size)
    wr = un = 0
    for f in range(size):
        c = None
        for z in range(8):
            x = o.cells.get(f - z)
            if x is not None:
                if x[0] > z:
                    c = x
                break
        if c is not None:
            wr += 1
            if getattr(c[1], 'u', False):
                un += 1
    return (wr, un, size)


def _task(t):
    sys.setrecursionlimit(100000)
    return one(*t)


def sweep(configs=None, only=None, jobs=8):
    configs = list(configs or build.CONFIGS)
    key = hashlib.sha256((build.sources_hash() + selfhash() + ' '.join(configs) + repr(only)).encode()).hexdigest()[:20]
    cache = os.path.join(build.BUILD, 'sweep-%s.pkl' % key)
    if os.path.exists(cache) and os.environ.get('SA_CACHE'):
        return pickle.load(open(cache, 'rb'))
    tasks = []
    missing = []
    for c in configs:
        m = build.module(c)
        for i, en in enumerate(api.entries(m, missing)):
            if only is None or only(en):
                tasks.append((c, i, en.id))
    # long ones first
    def w(t):
        return -(3 * ('448' in t[2]) + 2 * ('shared' in t[2]) + ('sign' in t[2]) + ('keygen' in t[2]) + ('h2c' in t[2]) + ('verify' in t[2]))
    tasks.sort(key=w)
    res = []
    with get_context('fork').Pool(jobs) as pool:
        for r in pool.imap_unordered(_task, [(c, i) for c, i, _ in tasks]):
            res.append(r)
    res.sort(key=lambda r: (r['config'], r['id']))
    out = {'res': res, 'missing': sorted(set(missing))}
    if os.environ.get('SA_CACHE'):
        pickle.dump(out, open(cache, 'wb'))
    return out


if __name__ == '__main__':
    t = time.time()
    out = sweep()
    print(time.time() - t, 's', out['missing'])
    for r in out['res']:
        ev = [x for x in r.get('events', []) if x[0] != 'sys']
        print(r['config'], r['id'], '%.1f' % r['time'], r['err'], len(ev), ev[:3], r['badalign'][:3], r['globw'], [g for g in r['globr'] if not g[1]], r['writes'], [(v['ret'], v['out'], v['heap']) for v in r['variants']])
