"""Compile /repo's current sources to IR and load them."""
import hashlib, os, subprocess, sys, glob, json, tempfile, shutil
from ir import Module
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CLANG = 'clang-18'
CONFIGS = {'adx': ['-mavx2', '-mbmi2', '-madx'], 'bmi2': ['-mavx2', '-mbmi2', '-mno-adx'], 'base': ['-mavx2', '-mno-bmi2', '-mno-adx']}
TUS = [('target', 'src/target.c'), ('sha512', 'third_party/sha512.c'), ('sha3', 'third_party/sha3.c'), ('sha512_2way', 'third_party/sha512_2way.c'), ('prng', 'third_party/prng.c')]


# two pipelines that keep the meaning; a relational argument may be visible in one form and not in the other
PASSES = ['always-inline,function(mem2reg,early-cse<memssa>,lcssa)', 'always-inline,function(mem2reg,lcssa)']


class BuildError(Exception):
    pass


def irx():
    src = os.path.join(VERIF, 'tools/irx/irx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'irx-' + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        cfg = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        lib = subprocess.check_output(['llvm-config-18', '--ldflags', '--libs', 'irreader', 'core', 'support'], text=True).split()
        tmp = out + '.%d' % os.getpid()
        subprocess.check_call(['clang++-18', '-O1'] + cfg + ['-fexceptions', src, '-o', tmp] + lib)
        os.rename(tmp, out)
    return out


def sources_hash():
    h = hashlib.sha256()
    fs = []
    for d in ('src', 'include', 'third_party'):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(root, f) for f in files if f.endswith(('.c', '.h'))]
    for f in sorted(fs):
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        h.update(open(f, 'rb').read())
    return h.hexdigest()


def compile_ir(config='adx', extra=(), passes=PASSES[0], tag=''):
    """-> list of json paths, one per translation unit"""
    tool = irx()
    key = hashlib.sha256((sources_hash() + config + ' '.join(extra) + passes + tool).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, 'ir-' + key)
    if os.path.exists(os.path.join(d, 'ok')):
        return [os.path.join(d, t + '.json') for t, _ in TUS]
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='ir', dir=BUILD)
    procs = []
    for t, s in TUS:
        bc, ob, js = (os.path.join(tmp, t + x) for x in ('.bc', '.o.bc', '.json'))
        cmd = '%s -std=c99 -O1 -Xclang -disable-llvm-passes -gline-tables-only -DNDEBUG -w %s -I%s/include -I%s/third_party -emit-llvm -c %s/%s -o %s && opt-18 -passes=\'%s\' %s -o %s && %s %s > %s && rm %s %s' % (
            CLANG, ' '.join(list(CONFIGS[config]) + list(extra)), REPO, REPO, REPO, s, bc, passes, bc, ob, tool, ob, js, bc, ob)
        procs.append((t, subprocess.Popen(cmd, shell=True, stderr=subprocess.PIPE, text=True)))
    for t, p in procs:
        _, err = p.communicate()
        if p.returncode:
            raise BuildError('%s: %s' % (t, err[-2000:]))
    open(os.path.join(tmp, 'ok'), 'w').close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp)
    return [os.path.join(d, t + '.json') for t, _ in TUS]


_mods = {}


def module(config='adx', extra=(), passes=PASSES[0]):
    k = (config, tuple(extra), passes)
    if k not in _mods:
        m = Module()
        for p in compile_ir(config, extra, passes):
            m.load(p)
        _mods[k] = m
    return _mods[k]


if __name__ == '__main__':
    irx()
    for c in CONFIGS:
        compile_ir(c)
