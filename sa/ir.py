"""Program representation: JSON written by tools/irx -> modules, functions, CFGs, loop nests."""
import json, os


class Module:
    def __init__(self):
        self.funcs = {}
        self.globals = {}
        self.asm = ''

    def load(self, path):
        m = json.load(open(path))
        tag = os.path.basename(path).split('.')[0]
        names = {}
        # internal symbols of different translation units may clash: qualify when needed
        for g, d in m['globals'].items():
            if g in self.globals and (d['internal'] or self.globals[g]['internal']) and not d['decl']:
                names[g] = g + '@' + tag
        for f, d in m['funcs'].items():
            if f in self.funcs and not d['decl'] and not self.funcs[f].decl and (d['internal'] or self.funcs[f].internal):
                names[f] = f + '@' + tag

        def fix(o):
            if isinstance(o, list):
                if len(o) == 3 and o[0] == 'g' and o[1] in names:
                    return ['g', names[o[1]], o[2]]
                return [fix(x) for x in o]
            if isinstance(o, dict):
                return {k: (names.get(v, v) if k == 'fn' else fix(v)) for k, v in o.items()}
            return o
        if names:
            for f in m['funcs'].values():
                if 'blocks' in f:
                    f['blocks'] = fix(f['blocks'])
            for g in m['globals'].values():
                for e in g.get('init', []):
                    if e[0] == 'p' and e[2] in names:
                        e[2] = names[e[2]]
        for g, d in m['globals'].items():
            n = names.get(g, g)
            if n in self.globals and d['decl']:
                continue
            d['name'] = g
            d['tu'] = tag
            self.globals[n] = d
        for f, d in m['funcs'].items():
            n = names.get(f, f)
            if n in self.funcs and d['decl']:
                continue
            self.funcs[n] = Func(n, d, tag)
        self.asm += m.get('asm', '')
        return self


class Func:
    def __init__(self, name, d, tu):
        self.name = name
        self.tu = tu
        self.decl = d['decl']
        self.internal = d['internal']
        self.params = d['params']
        self.ret = d['ret']
        self.file = d.get('file')
        self.line = d.get('line')
        self.vararg = d['vararg']
        self.blocks = d.get('blocks', [])
        self._prep = False

    def prep(self):
        if self._prep:
            return self
        self._prep = True
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        self.phis = []
        self.body = []
        self.term = []
        for b, ins in enumerate(self.blocks):
            t = ins[-1]
            s = list(t.get('succ', []))
            if t['op'] == 'switch':
                s += [c[1] for c in t['cases']]
            self.succ[b] = s
            for x in s:
                if b not in self.pred[x]:
                    self.pred[x].append(b)
            self.phis.append([i for i in ins if i['op'] == 'phi'])
            self.body.append([i for i in ins[:-1] if i['op'] != 'phi'])
            self.term.append(t)
        self.wto = wto(n, self.succ)
        # loop nesting: block -> tuple of headers
        self.heads = [()] * n

        def walk(items, hs):
            for it in items:
                if isinstance(it, tuple):
                    h, body = it
                    self.heads[h] = hs + (h,)
                    walk(body, hs + (h,))
                else:
                    self.heads[it] = hs
        walk(self.wto, ())
        return self

    def instrs(self):
        for b, ins in enumerate(self.blocks):
            for i in ins:
                yield b, i


def wto(n, succ):
    """Bourdoncle weak topological order: list of blocks or (head, [sub-order])."""
    import sys
    sys.setrecursionlimit(100000)
    dfn = [0] * n
    num = [0]
    stack = []

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = dfn[v]
        loop = False
        for w in succ[v]:
            m = visit(w, part) if dfn[w] == 0 else dfn[w]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = 1 << 60
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                sub = []
                for w in succ[v]:
                    if dfn[w] == 0:
                        visit(w, sub)
                sub.reverse()
                part.append((v, sub))
            else:
                part.append(v)
        return head
    part = []
    if n:
        visit(0, part)
    part.reverse()
    return part


def loc_str(ins):
    """Source position of an instruction: the outermost frame in repository code."""
    ls = ins.get('loc') or []
    for f, l, fn in ls:
        if 'llvm-18' in f or '/lib/clang' in f or f.startswith('/usr'):
            continue
        return '%s:%d' % (os.path.relpath(f, '/repo') if f.startswith('/repo') else f, l)
    if ls:
        return '%s:%d' % (ls[0][0], ls[0][1])
    return '?'
