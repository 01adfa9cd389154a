"""Checks decided by one sweep over every public entry point: events of the abstract interpretation."""
import os
import build, api, contracts, sweep as sw
from report import Check, Broken
from interp import SECRET
from dom import V, Ptr, C

SCOPE = {
    'P01': ('secret-address', 'secret-branch', 'secret-select', 'secret-div', 'secret-memcmp', 'secret-length'),
    'P03': ('oob', 'dangling', 'null-deref', 'wild-pointer', 'null-call', 'div-zero', 'memcpy-overlap'),
    'P04': ('undef-address', 'undef-branch'),
    'P05': ('ro-write',),
    'P23': ('maybe-null', 'bad-free'),
}
ALL = {k for v in SCOPE.values() for k in v}
IGNORED = {'sys', 'secret-shift', 'extern-global'}
KEYED = ('keygen', 'shared', 'sign')


def start(ck, only=None, need=60):
    s = sw.sweep(only=only)
    if s['missing']:
        ck.broken.append('missing entry points: %s' % s['missing'])
    n = {}
    for r in s['res']:
        n[r['config']] = n.get(r['config'], 0) + 1
        if r['err']:
            ck.lost.append('%s/%s: %s' % (r['config'], r['id'], r['err']))
        for k, v in r.get('counts', {}).items():
            ck.count(k, v)
        ck.count('entry points interpreted')
        ck.count('instructions interpreted', r.get('ins', 0))
    ck.cov['configurations'] = sorted(n)
    ck.cov['functions analysed'] = len({f for r in s['res'] for f in r.get('funcs', [])})
    if len(n) != len(build.CONFIGS) or min(n.values(), default=0) < need:
        raise Broken('%s: only %s entry points' % (ck.prop, n))
    ck.assume.append('callers pass buffers of the documented sizes (Point/field arguments aligned as their types say); message and context lengths up to 2^60')
    # an entry point that could not be followed decides nothing
    return [r for r in s['res'] if not r['err']]


def scoped(ck, res, kinds, what):
    """one obligation per entry point: none of these events occurs on any path"""
    for r in res:
        bad = [x for x in r.get('events', []) if x[0] in kinds]
        ck.ob('%s: %s' % (r['id'], what), not bad, '; '.join('%s: %s' % (x[0], x[1]) for x in bad[:3]) + (' [%s]' % r['config'] if bad else ''), '; '.join('%s %s via %s' % (x[2], x[3], x[4]) for x in bad[:2]))
        unknown = {x[0] for x in r.get('events', [])} - ALL - IGNORED
        if unknown:
            ck.broken.append('event kinds %s' % unknown)


def discharge(ck, res):
    """the summaries used at call sites hold of the functions' own bodies"""
    todo = set()
    for r in res:
        for o in r.get('obligations', []):
            todo.add((r['config'], tuple(o)))
    for c, o in sorted(todo):
        if o[0] == 'Update':
            best = None
            for passes in build.PASSES:
                bad, e = contracts.discharge_update(build.module(c, passes=passes), o[1])
                if best is None or len(bad) < len(best):
                    best = bad
                if not best:
                    break
            ck.ob('%s%s summary' % o, not best, '; '.join(best[:2]), o[0])
        else:
            bad = contracts.discharge_wnaf(build.module(c), o[0], o[1])
            ck.ob('%s width %d summary' % o, not bad, '; '.join(bad[:2]), o[0])


def P01():
    ck = Check('P01', 'exploration', 'taint: no branch or select condition, memory address, division operand, compared block or length depends on private-key bytes in key generation, key agreement and signing')
    ck.level = 'proof'
    only = lambda en: en.id.split('.')[-1] in KEYED
    res = start(ck, only, 11)
    ck.minimum = 11
    scoped(ck, res, SCOPE['P01'], 'no secret-dependent control flow or address')
    return ck.finish()


def P03():
    ck = Check('P03', 'proof', 'every load and store of every entry point stays inside a live object for all argument lengths')
    res = start(ck)
    ck.minimum = 60
    scoped(ck, res, SCOPE['P03'], 'accesses in bounds and to live objects')
    discharge(ck, res)
    return ck.finish()


def P04():
    ck = Check('P04', 'proof', 'no branch or address depends on uninitialised storage, and every byte delivered in an output is initialised')
    res = start(ck)
    ck.minimum = 60
    scoped(ck, res, SCOPE['P04'], 'no use of uninitialised data')
    ck.assume.append('block buffers of the hash functions are filled front to back (writes at a variable position are taken to define the buffer)')
    for r in res:
        for v in r['variants']:
            for a, s in v['out'].items():
                if isinstance(s, tuple):
                    ck.ob('%s: no uninitialised byte in %s' % (r['id'], a), s[1] == 0, '%d of %d bytes may be uninitialised [%s]' % (s[1], s[2], r['config']), r['fn'])
    return ck.finish()


def success(ret):
    """return values after which the outputs must be there"""
    return ret is None or isinstance(ret, str) or ret[0] <= 1


def P05():
    ck = Check('P05', 'proof', 'inputs and static tables are only read; outputs are written completely on success and not at all when the context is refused')
    res = start(ck)
    ck.minimum = 100
    scoped(ck, res, SCOPE['P05'], 'nothing read-only is written')
    for r in res:
        kinds = {a[0]: a[1] for a in r['args']}
        for a, k in kinds.items():
            if k == 'in':
                w = r['writes'].get(a)
                ck.ob('%s: input %s is not written' % (r['id'], a), w is None, 'written up to byte %s [%s]' % (w[1] if w else '', r['config']), w[2] if w else '')
        for v in r['variants']:
            for a, s in v['out'].items():
                if not isinstance(s, tuple):
                    continue
                if success(v['ret']):
                    ck.ob('%s: output %s is written completely when the call returns %s' % (r['id'], a, v['ret']), s[0] == s[2], 'only %d of %d bytes are certainly written [%s]' % (s[0], s[2], r['config']), r['fn'])
                else:
                    ck.ob('%s: output %s is untouched when the call returns %s' % (r['id'], a, v['ret']), s[0] == 0, '%d bytes written [%s]' % (s[0], r['config']), r['fn'])
    return ck.finish()


def P06():
    ck = Check('P06', 'proof', 'no entry point writes an object of static storage duration')
    res = start(ck)
    ck.minimum = 60
    for r in res:
        ck.ob('%s: no static object is written' % r['id'], not r['globw'], '%s [%s]' % (r['globw'], r['config']), ', '.join(r['globw'].values()))
        ck.count('static objects read', len(r['globr']))
    for c in build.CONFIGS:
        m = build.module(c)
        for g, x in m.globals.items():
            if x['decl'] or g.startswith('llvm.') or x['const']:
                continue
            # functions no entry point reaches may not write it either
            for f in m.funcs.values():
                for ins in (i for b in f.blocks for i in b):
                    if ins['op'] == 'store' and ins['args'][1][0] == 'g' and ins['args'][1][1] == g:
                        ck.ob('static object %s is never written' % g, False, 'stored to by %s [%s]' % (f.name, c), f.name)
            ck.count('writable static objects never stored to')
        ck.count('static objects', sum(not x['decl'] for x in m.globals.values()))
    return ck.finish()


def P23():
    ck = Check('P23', 'proof', 'every heap block is checked before use, released exactly once or handed to the caller, and nothing else is released')
    res = start(ck)
    ck.minimum = 70
    for r in res:
        bad = [x for x in r.get('events', []) if x[0] in SCOPE['P23'] or x[0] == 'dangling']
        ck.ob('%s: no use of a block that may be missing, no bad release' % r['id'], not bad, '; '.join('%s: %s' % (x[0], x[1]) for x in bad[:3]) + ' [%s]' % r['config'], '; '.join('%s %s' % (x[2], x[3]) for x in bad[:2]))
        leak = [h[0] for v in r['variants'] for h in v['heap'] if not h[1]]
        ck.ob('%s: every block is released or returned' % r['id'], not leak, '%s still allocated at return [%s]' % (leak[:2], r['config']), r['fn'])
        f = r['id'].split('.')[-1]
        if f.startswith('free') and 'NULL' not in f:
            ok = all(v['out'].get('block') == 'freed' for v in r['variants'])
            ck.ob('%s: releases its argument' % r['id'], ok, 'block still allocated [%s]' % r['config'], r['fn'])
        if f.startswith('alloc'):
            ok = all('heap' in str(v['ret']) for v in r['variants'])
            ck.ob('%s: returns a block it allocated' % r['id'], ok, str([v['ret'] for v in r['variants']]), r['fn'])
    return ck.finish()


def P24():
    ck = Check('P24', 'proof', 'every vector access compiled as aligned goes to an address whose alignment follows from the declared alignment of the object and the offset')
    only = lambda en: not any(x in en.id for x in ('alloc', 'free', 'print', 'rand'))
    res = start(ck, only, 20)
    ck.minimum = 20
    n = 0
    for r in res:
        n += r['aligned']
        ck.ob('%s: aligned vector accesses' % r['id'], not r['badalign'], '; '.join(x[2] for x in r['badalign'][:3]) + ' [%s]' % r['config'], '; '.join('%s %s' % x[:2] for x in r['badalign'][:3]))
    ck.count('aligned vector accesses interpreted', n)
    if n < 100000:
        raise Broken('P24: only %d aligned vector accesses' % n)
    return ck.finish()
