"""Inversion and root slots: the exponent computed by the whole chain."""
import build, slots
from dom import Dom, Ptr, C
from interp import Engine, Mem, Obj
from rep import REPS
from fieldsem import Sem, Lost, Wrong

OPS = {('Fp25519', 'inv'): lambda p: p - 2, ('Fp448', 'inv'): lambda p: p - 2, ('Fp448', 'srt'): lambda p: (p - 3) // 4}


def jobs():
    r = []
    for cfg in build.CONFIGS:
        m = build.module(cfg)
        for G in ('Fp25519', 'Fp448'):
            for path, fn in slots.field_table(m, G).items():
                if fn and (G, path.split('.')[-1]) in OPS:
                    r.append((cfg, 'inverse', G + '.' + path))
    return r


def decide(cfg, g, ob):
    G, path = g.split('.', 1)
    w, op = path.split('.')[0], path.split('.')[-1]
    m = build.module(cfg)
    fn = slots.field_table(m, G)[path]
    d = Dom(True, maxterms=20000)
    e = Engine(m, d, max_undecided=1)
    sem = Sem(cfg, e, (G,))
    mem = Mem()
    rep = REPS[G][w]
    f = sem.F[G]
    args = []
    for nm in ('c', 'a'):
        o = Obj(nm, rep.size, 'param', 'undef')
        mem.add(o)
        args.append(Ptr({nm: C(0)}))
    v = f.input('a')
    bounds = [(1 << 64) - 1] * len(rep.widths) if rep.full else [int(1.1 * (1 << k)) for k in rep.widths]
    sem.put(mem, args[1], rep, G, [f.var(v)], bounds, 'a')
    ret, mem = e.call(fn, args, mem)
    for x in list(e.events.values())[:3]:
        ob('fault', False, repr(x), fn)
    F, bs = sem.get(mem, args[0], rep, G)
    want = {((), ((v, OPS[G, op](f.p)),)): 1}
    detail = ''
    if F != want:
        detail = 'the result is %s, not the operand to the power %s' % (f.show(F), {'inv': 'p-2', 'srt': '(p-3)/4'}[op])
        if len(F) == 1:
            ((b, mo), c), = F.items()
            if c == 1 and len(mo) == 1 and mo[0][0] == v:
                detail = 'the chain raises the operand to the power %d instead of %s' % (mo[0][1], {'inv': 'p-2', 'srt': '(p-3)/4'}[op])
        elif not all(x == v for (b, mo) in F for x, _ in mo):
            raise Lost('the result of %s is not a power of its operand' % fn)
    ob('exponent', F == want, detail, fn)
    a, _ = sem.get(mem, args[1], rep, G)
    ob('operand kept', a == f.var(v), 'the operand is changed', fn)
    if not rep.full:
        u = max(b / (1 << k) for b, k in zip(bs, rep.widths))
        ob('limbs', u <= 1.1, 'result limbs reach %.2f units' % u, fn)
    return sem
