"""Properties about the value computed by a whole public function (field-level interpretation)."""
import multiprocessing as mp, os, time, traceback
import build, slots, l0
from report import Check, Broken
from fieldsem import Lost, Wrong


class Rec:
    def __init__(self, pre):
        self.pre, self.obs, self.cov, self.broken, self.lost, self.undecided = pre, [], {}, [], [], []

    def ob(self, i, ok, d='', w=''):
        self.obs.append((self.pre + i, bool(ok), d, w))

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n


def one(args):
    cfg, modname, g = args
    mod = __import__(modname)
    r = Rec('%s.%s:' % (cfg, g))
    used = set()
    try:
        sem = mod.decide(cfg, g, r.ob)
        if sem is not None:
            used = sem.used
            for k, v in sem.calls.items():
                r.count('calls of ' + k, v)
            r.count('instructions_interpreted', getattr(sem.e, 'nins', 0))
            r.undecided += [(r.pre + i, d) for i, d in getattr(sem, 'undecided', [])]
            if getattr(sem, 'paths', 0):
                r.count('paths enumerated', sem.paths)
    except Wrong as ex:
        r.ob(ex.what, False, str(ex), ex.where)
    except Lost as ex:
        r.lost.append('%s.%s: %s' % (cfg, g, ex))
    except Broken as ex:
        r.broken.append('%s.%s: %s' % (cfg, g, ex))
    except build.BuildError:
        raise
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        r.lost.append('%s.%s: %s: %s (%s:%d)' % (cfg, g, type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno))
    return r.obs, r.cov, r.broken, r.lost, sorted((cfg, G, w, op) for G, w, op in used), r.undecided


def slotjob(args):
    cfg, G, w, op = args
    m = build.module(cfg)
    r = Rec('')
    t = slots.field_table(m, G)
    for path, fn in t.items():
        if fn and path.split('.')[0] == w and path.split('.')[-1] == op:
            l0.check_slot(r, m, cfg, G, w, path, fn)
    return r.obs, r.cov, r.lost


def run(ck, jobs):
    used = set()
    for cfg in build.CONFIGS:
        build.module(cfg)
    with mp.Pool(8) as pool:
        for obs, cov, br, lo, us, un in pool.imap(one, jobs, 1):
            ck.broken += br
            ck.lost += lo
            ck.undecided += un
            for o in obs:
                ck.ob(*o)
            for k, v in cov.items():
                ck.count(k, v)
            used |= set(us)
        for obs, cov, lo in pool.imap(slotjob, sorted(used), 1):
            ck.lost += lo
            for o in obs:
                ck.ob(*o)
            for k, v in cov.items():
                ck.count(k, v)
    ck.cov['field_routines_relied_on'] = sorted({'%s.%s.%s' % (G, w.lstrip('_'), op) for _, G, w, op in used})


def P25():
    ck = Check('P25', 'proof', 'X25519 and X25519_x64 shared: the element graph extracted from the code is, step by step, the RFC 7748 Montgomery ladder over the clamped scalar for a symbolic key and a symbolic u-coordinate; operand limb bounds hold at every field routine; the result is the canonical encoding')
    ck.minimum = 1000
    run(ck, [(c, 'ladder', g) for g in ('X25519', 'X25519_x64') for c in build.CONFIGS])
    return ck.finish()


def P26():
    ck = Check('P26', 'proof', 'X448 shared: the element graph extracted from the code is, step by step, the RFC 7748 Montgomery ladder over the clamped scalar for a symbolic key and a symbolic u-coordinate; operand limb bounds hold at every field routine; the result is the canonical encoding')
    ck.minimum = 1000
    run(ck, [(c, 'ladder', 'X448') for c in build.CONFIGS])
    return ck.finish()


def P10():
    import inverse
    ck = Check('P10', 'proof', 'every inversion slot of both dispatch tables, and the Fp448 root slot, raises a symbolic operand to exactly the specified exponent (p-2, respectively (p-3)/4); operand limb bounds hold at every field routine of the chain')
    ck.minimum = 50
    run(ck, inverse.jobs())
    return ck.finish()


EDDSA = [('Ed25519', v) for v in ('Pure', 'Context', 'PreHash')] + [('Ed448', v) for v in ('PureContext', 'PreHash')]


def eddsa(ops):
    r = []
    for c in build.CONFIGS:
        for t, v in EDDSA:
            for op in ops:
                r.append((c, 'proto', '%s.%s.%s' % (t, v, op)))
                if v != 'Pure' and op != 'keygen':
                    r.append((c, 'proto', '%s.%s.%s:long' % (t, v, op)))
    return r


def hash_jobs(ck):
    import hashes
    # the compression functions are proven once, before the jobs are handed to the workers
    for cfg in build.CONFIGS:
        for fam in ('sha', 'sha2w', 'keccak'):
            hashes.lemmas(cfg, fam)
    return hashes.jobs(ck.tier)


def parts(ck, *makers):
    """jobs of the operations a protocol check takes as operations of known meaning: the property needs
    them too.  They have checks of their own, so a part whose anchor is gone is left to that check."""
    r = []
    for mk in makers:
        try:
            r += mk()
        except (Lost, Broken) as ex:
            ck.lost.append(str(ex))
    return r


def P14():
    import scalar, decode, dbl
    ck = Check('P14', 'proof', 'on every path of every verify operation the returned result agrees with the facts established on that path: acceptance needs a decoded key, S below the order, the challenge of the RFC 8032 transcript and all bytes of R compared; each error code has its own cause; the operations these paths are made of (key decoding, scalar arithmetic, double-base multiplication with encoding, hash functions) meet their specifications by the rules of P27, P21, P12 and P17')
    ck.minimum = 60
    run(ck, eddsa(['verify']) + parts(ck, decode.jobs, scalar.jobs, dbl.jobs, lambda: hash_jobs(ck)))
    return ck.finish()


def P15():
    import scalar, group
    ck = Check('P15', 'proof', 'the transcripts hashed, the clamping, and the scalars formed by key generation and signing are, symbolically, those of RFC 8032; R, S and the public key are the encodings of exactly these values; the operations used (fixed-base multiplication with encoding, scalar arithmetic, hash functions) meet their specifications by the rules of P11, P21 and P17')
    ck.minimum = 90
    run(ck, eddsa(['keygen', 'sign']) + parts(ck, lambda: group.jobs(('Ed25519.point', 'Ed448.point')), scalar.jobs, lambda: hash_jobs(ck)))
    return ck.finish()


def P21():
    import scalar
    ck = Check('P21', 'proof', 'the scalar routines of both signature schemes, interpreted on symbolic words: the final words are congruent to the specified value modulo the group order by exact polynomial arithmetic and lie below the order, on every case of the sign and top-bit distinctions')
    ck.minimum = 40
    run(ck, scalar.jobs())
    return ck.finish()


def P27():
    import decode
    ck = Check('P27', 'proof', 'every path of key decoding: rejection only for one of the specified reasons, acceptance only with canonicity, root and sign established, coordinates equal to the specified polynomials of (x, y)')
    ck.minimum = 100
    run(ck, decode.jobs())
    return ck.finish()


def P17():
    ck = Check('P17', 'proof', 'SHA-512 (streaming and two-way) and SHAKE128/256 (one-shot and streaming): for unknown message bytes, the digest is the same word-level form (products of rotated words, modular sums) as the one FIPS 180-4 / FIPS 202 define, for every enumerated way of cutting the message; the padding length is right for an unknown number of earlier blocks; every bit of the length decides how many blocks are absorbed')
    ck.minimum = 1500
    run(ck, hash_jobs(ck))
    return ck.finish()


def P11():
    import group
    ck = Check('P11', 'proof', 'fixed-base multiplication interpreted on unknown scalar bits: each recoded digit becomes a case variable with the exact table operand of every case; every table operand is the expected multiple of the base point, every sequence of field operations between them is a complete addition, doubling or isogeny, and the multiples add up to the scalar as a polynomial identity over its bits; the encoding is canonical')
    ck.minimum = 400
    run(ck, group.jobs(('Ed25519.point', 'Ed448.point')))
    return ck.finish()


def P18():
    import group
    ck = Check('P18', 'proof', 'X25519 and X448 key generation interpreted on an unknown key: the result is the canonical u-coordinate of a multiple of the base point, and the multiples selected by the recoded digits add up to the clamped scalar as a polynomial identity over the key bits')
    ck.minimum = 400
    run(ck, group.jobs(('X25519.keygen', 'X25519_x64.keygen', 'X448.keygen')))
    return ck.finish()


def P12():
    import dbl
    ck = Check('P12', 'proof', 'double-base multiplication of verification: every iteration of the signed recoding keeps digit + 2 * rest = scalar for every value of the low bits and on every path; from any accumulator Q the loop body makes 2Q + d_s B + d_h A for every pair of digits, with every limb within its word; the loop visits every digit; the result is the canonical encoding of the accumulator')
    ck.minimum = 300
    run(ck, dbl.jobs())
    return ck.finish()


def P28():
    import h2c
    ck = Check('P28', 'proof', 'hashing to the curve: the two field elements are the reduced digests of 0||msg and 1||msg; on every combination of outcomes of its comparisons the map delivers the point of the RFC 9380 straight-line program; the affine result is eight times the sum of the mapped points as an identity on the curve; limb bounds hold at every field routine; both predicates decide exactly the curve equation and equality')
    ck.minimum = 150
    run(ck, parts(ck, h2c.jobs, scalar_jobs('modular_reduction_ed25519'), lambda: hash_jobs(ck)))
    return ck.finish()


def scalar_jobs(name):
    def mk():
        import scalar
        return [j for j in scalar.jobs() if j[2] == name]
    return mk
