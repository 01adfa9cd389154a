"""Obligation bookkeeping, known findings, evidence, verdict."""
import json, os, sys, time, traceback
import build

KNOWN = os.path.join(build.VERIF, 'known_findings.json')


class Broken(Exception):
    """The analysis lost its anchor: neither a pass nor a violation."""


class Check:
    def __init__(self, prop, level, rule):
        self.prop, self.level, self.rule = prop, level, rule
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.obs = []          # (id, ok, detail, where)
        self.ids = {}
        self.cov = {}
        self.assume = []
        self.minimum = 1
        self.broken = []       # anchors that are gone: the check gives no answer
        self.lost = []         # parts that are there but could not be followed
        self.undecided = []    # (id, why): neither proved nor refuted, after a search for a counterexample
        self.trusted = ['clang 18 front end and LLVM IR semantics as modelled by sa/interp.py', 'the instruction and intrinsic models in sa/x86.py, sa/intrin.py, sa/libc.py', 'the abstract domain in sa/dom.py']

    def ob(self, oid, ok, detail='', where=''):
        n = self.ids.get(oid)
        if n is not None:
            # the same obligation in another configuration: one failure decides
            if not ok and self.obs[n][1]:
                self.obs[n] = (oid, ok, detail, where)
            return
        self.ids[oid] = len(self.obs)
        self.obs.append((oid, ok, detail, where))

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def finish(self, explanation=None, samples=None):
        if self.lost:
            # most of the obligations were generated: the parts that could not be followed are named, and nothing is claimed about them
            if 4 * len(self.obs) >= self.minimum:
                self.undecided += [(x, 'the analysis cannot follow this part') for x in self.lost]
            else:
                self.broken += self.lost
        if self.broken and all(o[1] for o in self.obs):
            raise Broken('%s: %s' % (self.prop, '; '.join(self.broken[:5])))
        if len(self.obs) < self.minimum and not self.undecided and all(o[1] for o in self.obs):
            raise Broken('%s: only %d obligations generated, expected at least %d' % (self.prop, len(self.obs), self.minimum))
        known = {}
        if os.path.exists(KNOWN):
            for k in json.load(open(KNOWN)).get('findings', []):
                if k['property'] == self.prop:
                    known[k['obligation']] = k
        bad = [o for o in self.obs if not o[1]]
        new = [o for o in bad if o[0] not in known]
        for o in bad:
            if o[0] in known:
                print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, o[0], known[o[0]]['what']))
        cov = {'obligations': len(self.obs), 'discharged': len(self.obs) - len(bad),
               'known_findings_reported': len(bad) - len(new),
               'rule': self.rule, 'explanation': explanation or self.rule,
               'checker_cmd': 'python3 /verif/sa/run.py %s' % self.prop, 'trusted_base': self.trusted,
               'samples': samples or [{'obligation': o[0], 'discharged': bool(o[1]), 'where': o[3], 'detail': str(o[2])[:200]} for o in (self.obs[:2] + self.obs[len(self.obs) // 2:len(self.obs) // 2 + 2] + self.obs[-2:])]}
        cov.update(self.cov)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        if self.assume:
            ev['assumptions'] = self.assume
        if self.undecided:
            ev['level'] = 'other'
            cov['undecided'] = ['%s: %s' % x for x in self.undecided]
            cov['explanation'] += '. NOT a proof on this tree: the obligations under "undecided" were neither proved nor refuted'
        d = os.path.join(build.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged, %d known findings, %.1fs' % (self.prop, len(self.obs), len(self.obs) - len(bad), len(bad) - len(new), time.time() - self.t0))
        if new:
            rp = os.path.join(d, self.prop + '.violations.txt')
            with open(rp, 'w') as f:
                f.write('rule: %s\n' % self.rule)
                for o in new:
                    f.write('\nobligation %s\n  at %s\n  %s\n' % (o[0], o[3], o[2]))
            for o in new[:12]:
                print('  violated: %s at %s: %s' % (o[0], o[3], str(o[2])[:300]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        if self.broken:
            raise Broken('%s: %s' % (self.prop, '; '.join(self.broken[:5])))
        for x in self.undecided[:12]:
            print('UNDECIDED property=%s %s: %s' % (self.prop, x[0], str(x[1])[:200]))
        return 0
