"""Dispatch tables: slot -> function symbol, from the initialisers in the analysed program.

The member offsets come from compiling a probe against the current public headers, so a reordered
structure is followed."""
import hashlib, json, os, subprocess
import build

MISC = ['alloc', 'copy', 'free', 'print', 'rand', 'ser', 'unser', 'zero']
A1 = ['add', 'cmp', 'cmv', 'inv', 'mul', 'neg', 'sgn', 'sqr', 'srt', 'sub', 'prime']
A2 = ['add', 'cmp', 'cmv', 'mul', 'neg', 'ngz', 'sgn', 'sqr', 'sub']
A4 = ['add', 'cmp', 'mul', 'neg', 'ngz', 'sqr', 'srt', 'sub']
FP = {
    '_1w_full': (A1, ['intmul', 'intmul2', 'intsqr', 'intsqr2', 'mula24', 'reduce', 'reduce2']),
    '_1w_red': (A1, ['addsub', 'intmul', 'compress', 'compressfast']),
    '_2w_red': (A2, ['addsub', 'deinter', 'inter', 'intmul', 'intsqr', 'compress', 'compress2', 'compressfast']),
    '_4w_red': (A4, ['addsub', 'addsublar', 'intmul', 'intsqr', 'compress', 'compress2', 'compressfast', 'new_compressfast2']),
}
PROBES = [('PrimeField', '%s.arith.%s' % (w, s)) for w in FP for s in FP[w][0]]
PROBES += [('PrimeField', '%s.arith.misc.%s' % (w, s)) for w in FP for s in MISC]
PROBES += [('PrimeField', '%s.arithex.%s' % (w, s)) for w in FP for s in FP[w][1]]


def probe(pairs, headers):
    """-> {(type, path): offset} for the members that exist"""
    key = hashlib.sha256((build.sources_hash() + repr(pairs) + repr(headers)).encode()).hexdigest()[:20]
    out = os.path.join(build.BUILD, 'probe-%s.json' % key)
    if os.path.exists(out):
        return {tuple(k.split('|')): v for k, v in json.load(open(out)).items()}
    os.makedirs(build.BUILD, exist_ok=True)

    def comp(ps):
        src = ''.join('#include "%s"\n' % h for h in headers) + '#include <stddef.h>\n'
        src += ''.join('const unsigned long probe_%d = offsetof(%s, %s);\n' % (i, t, p) for i, (t, p) in ps)
        r = subprocess.run([build.CLANG, '-std=c99', '-mavx2', '-I%s/include' % build.REPO, '-I%s/third_party' % build.REPO, '-w', '-ferror-limit=0', '-x', 'c', '-S', '-emit-llvm', '-o', '-', '-'], input=src, capture_output=True, text=True)
        return r

    ps = list(enumerate(pairs))
    r = comp(ps)
    if r.returncode:
        import re
        base = len(headers) + 2
        bad = {int(m) - base for m in re.findall(r'<stdin>:(\d+):\d+: error', r.stderr)}
        ps = [x for k, x in enumerate(ps) if k not in bad]
        r = comp(ps)
        if r.returncode:
            raise build.BuildError('probe: ' + r.stderr[-1500:])
    import re
    vals = {int(a): int(b) for a, b in re.findall(r'@probe_(\d+) = .*?constant i64 (\d+)', r.stdout)}
    res = {pairs[i]: vals[i] for i in vals}
    tmp = '%s.%d' % (out, os.getpid())
    with open(tmp, 'w') as fh:
        json.dump({'|'.join(k): v for k, v in res.items()}, fh)
    os.rename(tmp, out)
    return res


def table(m, gname, pairs, headers):
    """-> {path: function symbol or None (null) } for global gname"""
    offs = probe(pairs, headers)
    g = m.globals[gname]
    rel = {e[1]: e[2] for e in g.get('init', []) if e[0] == 'p'}
    return {p: rel.get(off) for (t, p), off in offs.items()}


def field_table(m, gname):
    return table(m, gname, PROBES, ['faz_fp_avx2.h'])


if __name__ == '__main__':
    m = build.module('adx')
    for g in ('Fp25519', 'Fp448'):
        for k, v in field_table(m, g).items():
            print(g, k, v)
