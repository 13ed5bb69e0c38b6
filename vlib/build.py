"""Builds everything a check needs from /repo's current working tree:
LLVM bitcode of all library sources (real flags), native objects for replay,
the engine and the libc model.  Results are cached by content hash under
/verif/.work so that repeated runs on the same tree are fast; the key covers
every source byte, every flag and the machinery itself."""
import hashlib, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
LIBDIRS = ['BASICS', 'INOUT', 'TERMS', 'ORDERINGS', 'CLAUSES', 'PROPOSITIONAL',
           'HEURISTICS', 'LEARN', 'CONTROL', 'PCL2']
INCDIRS = LIBDIRS + ['PROVER', 'CONTRIB/picosat-965']
DEFS = ['-DEVERIF_SMALL_TABLES', '-DNDEBUG', '-DFAST_EXIT', '-DSTACK_SIZE=32768', '-DCLAUSE_PERM_IDENT',
        '-DMEMORY_RESERVE_PARANOID', '-DPRINT_SOMEERRORS_STDOUT',
        '-DPRINT_TSTP_STATUS', '-DTAGGED_POINTERS', '-DTRACE']
VARIANTS = {
    'fo': [],
    'ho': ['-DENABLE_LFHO'],
    'sys': ['-DUSE_SYSTEM_MEM'],          # no free lists: block-exact bounds/UAF checks
    'hosys': ['-DENABLE_LFHO', '-DUSE_SYSTEM_MEM'],
}
BCFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-inline-functions', '-fno-unroll-loops',
           '-g', '-w', '-std=gnu99']
NPROC = os.cpu_count() or 4


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)
    return r


def must(cmd, what):
    r = run(cmd)
    if r.returncode != 0:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd)[:400], (r.stderr or r.stdout)[-3000:]))
    return r


def lib_sources():
    out = []
    for d in LIBDIRS:
        p = os.path.join(REPO, d)
        mk = open(os.path.join(p, 'Makefile')).read().replace('\\\n', ' ')
        objs = set(re.findall(r'([\w-]+)\.o\b', mk))
        for f in sorted(os.listdir(p)):
            if f.endswith('.c') and f[:-2] in objs:
                out.append(os.path.join(p, f))
    out.append(os.path.join(REPO, 'CONTRIB/picosat-965/picosat.c'))
    return out


def incs():
    return ['-I' + os.path.join(REPO, d) for d in INCDIRS]


_key = None


def source_key():
    global _key
    if _key is None:
        h = hashlib.sha256()
        for d in INCDIRS:
            p = os.path.join(REPO, d)
            for f in sorted(os.listdir(p)):
                if f.endswith(('.c', '.h')) or f == 'Makefile':
                    h.update((d + '/' + f).encode())
                    with open(os.path.join(p, f), 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
        h.update(repr((DEFS, VARIANTS, BCFLAGS)).encode())
        h.update(open(os.path.abspath(__file__), 'rb').read())
        _key = h.hexdigest()[:16]
    return _key


def file_key(*files):
    h = hashlib.sha256()
    for f in files:
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:12]


def cached(name, builder):
    """Directory WORK/name, built atomically by builder(tmpdir)."""
    os.makedirs(WORK, exist_ok=True)
    d = os.path.join(WORK, name)
    if os.path.isdir(d):
        os.utime(d)
        return d
    t = tempfile.mkdtemp(prefix='tmp-', dir=WORK)
    try:
        builder(t)
        try:
            os.rename(t, d)
        except OSError:
            if not os.path.isdir(d):
                raise
            shutil.rmtree(t, ignore_errors=True)
    except BaseException:
        shutil.rmtree(t, ignore_errors=True)
        raise
    prune()
    return d


def prune(keep=60):
    ds = []
    for f in os.listdir(WORK):
        p = os.path.join(WORK, f)
        if f.startswith(('lib-', 'nat-', 'engine-', 'mod-', 'nexe-')):
            try:
                ds.append((os.path.getmtime(p), p))
            except OSError:
                pass
    now = time.time()
    ds.sort()
    for m, p in ds[:-keep]:
        if now - m > 1800:
            shutil.rmtree(p, ignore_errors=True)


def par(cmds, what):
    def one(c):
        r = run(c)
        return (c, r)
    with ThreadPoolExecutor(NPROC) as ex:
        for c, r in ex.map(one, cmds):
            if r.returncode != 0:
                raise BuildError('%s failed: %s\n%s' % (what, c[-3:], r.stderr[-3000:]))


def engine():
    src = os.path.join(VERIF, 'engine/symx.cpp')
    hdr = os.path.join(VERIF, 'engine/expr.h')

    def b(t):
        must(['clang++', '-O2', '-std=c++17', '-fno-exceptions', '-fno-rtti', '-w',
              '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
              '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', t + '/symx',
              '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'], 'engine build')
    return os.path.join(cached('engine-' + file_key(src, hdr), b), 'symx')


def libbc(variant):
    def b(t):
        srcs = lib_sources()
        objs, cmds = [], []
        for s in srcs:
            o = os.path.join(t, os.path.basename(s)[:-2] + '.bc')
            objs.append(o)
            cmds.append(['clang', '-c', '-emit-llvm'] + BCFLAGS + DEFS + VARIANTS[variant] + incs() + [s, '-o', o])
        par(cmds, 'bitcode')
        must(['llvm-link-18'] + objs + ['-o', t + '/lib.bc'], 'llvm-link')
        for o in objs:
            os.unlink(o)
    return os.path.join(cached('lib-%s-%s' % (variant, source_key()), b), 'lib.bc')


def natlib(variant, san):
    def b(t):
        srcs = lib_sources()
        objs, cmds = [], []
        v = list(VARIANTS[variant])
        if san:
            cc = ['clang', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=function,alignment,shift,signed-integer-overflow,pointer-overflow,unsigned-integer-overflow,float-cast-overflow,bool,enum,vla-bound',
                  '-fno-sanitize-recover=undefined']
            if '-DUSE_SYSTEM_MEM' not in v:
                v.append('-DUSE_SYSTEM_MEM')
        else:
            cc = ['gcc', '-O1', '-U_FORTIFY_SOURCE']
        for s in srcs:
            o = os.path.join(t, os.path.basename(s)[:-2] + '.o')
            objs.append(o)
            cmds.append(cc + ['-c', '-w', '-std=gnu99'] + DEFS + v + incs() + [s, '-o', o])
        par(cmds, 'native')
        must(['ar', 'rcs', t + '/libE.a'] + objs, 'ar')
        for o in objs:
            os.unlink(o)
    return os.path.join(cached('nat-%s%s-%s' % (variant, '-san' if san else '', source_key()), b), 'libE.a')


def hdeps(harness):
    hd = os.path.join(VERIF, 'harness')
    l = [os.path.join(hd, harness)] + sorted(os.path.join(hd, f) for f in os.listdir(hd) if f.endswith('.h'))
    return l + [os.path.join(VERIF, 'rt', f) for f in ('runtime.c', 'sx.h', 'sx_native.c')]


def module(harness, variant, defs=(), wraps=()):
    """Whole-program bitcode: library + harness + libc model.  wraps: names of
    environment functions that the harness replaces (vh_<name> is linked in)."""
    lib = libbc(variant)
    k = file_key(*hdeps(harness)) + hashlib.sha256(repr((tuple(defs), tuple(wraps))).encode()).hexdigest()[:6]

    def b(t):
        hs = os.path.join(VERIF, 'harness', harness)
        I = incs() + ['-I' + os.path.join(VERIF, 'rt'), '-I' + os.path.join(VERIF, 'harness')]
        must(['clang', '-c', '-emit-llvm'] + BCFLAGS + DEFS + VARIANTS[variant] + ['-DSYMX'] + list(defs) + I + [hs, '-o', t + '/h.bc'], 'harness ' + harness)
        must(['clang', '-c', '-emit-llvm', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin', '-w', os.path.join(VERIF, 'rt/runtime.c'), '-o', t + '/rt.bc'], 'runtime')
        l = lib
        if wraps:
            must(['llvm-dis-18', lib, '-o', t + '/lib.ll'], 'dis')
            s = open(t + '/lib.ll').read()
            for w in wraps:
                s = re.sub(r'@%s\b(?=[ (,)])' % re.escape(w), '@vh_' + w, s)
            open(t + '/lib.ll', 'w').write(s)
            must(['llvm-as-18', t + '/lib.ll', '-o', t + '/lib.bc'], 'as')
            os.unlink(t + '/lib.ll')
            l = t + '/lib.bc'
        must(['llvm-link-18', t + '/h.bc', l, t + '/rt.bc', '-o', t + '/full.bc'], 'link ' + harness)
        roots = re.findall(r'^void\s+(\w+)\s*\(\s*void\s*\)', open(hs).read(), re.M)
        must(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(roots), t + '/full.bc', '-o', t + '/m.bc'], 'strip')
        for f in ('lib.bc', 'h.bc', 'rt.bc', 'full.bc'):
            if os.path.exists(t + '/' + f):
                os.unlink(t + '/' + f)
    return os.path.join(cached('mod-%s-%s-%s-%s' % (harness.replace('.', '_'), variant, source_key(), k), b), 'm.bc')


def native(harness, entry, variant, san, defs=(), wraps=()):
    lib = natlib(variant, san)
    k = file_key(*hdeps(harness)) + hashlib.sha256(repr((tuple(defs), tuple(wraps))).encode()).hexdigest()[:6]

    def b(t):
        v = list(VARIANTS[variant])
        if san and '-DUSE_SYSTEM_MEM' not in v:
            v.append('-DUSE_SYSTEM_MEM')
        cc = ['clang', '-fsanitize=address,undefined', '-fno-sanitize=function'] if san else ['clang']
        I = incs() + ['-I' + os.path.join(VERIF, 'rt'), '-I' + os.path.join(VERIF, 'harness')]
        W = ['-Wl,--wrap=' + w for w in wraps]
        # natively the linker redirects w -> __wrap_w; harness defines vh_w
        D = ['-Wl,--defsym=__wrap_%s=vh_%s' % (w, w) for w in wraps]
        must(cc + ['-O1', '-g', '-w', '-std=gnu99', '-DSX_ENTRY=' + entry] + DEFS + v + list(defs) + I +
             [os.path.join(VERIF, 'harness', harness), os.path.join(VERIF, 'rt/sx_native.c'), lib, '-lm'] + W + D + ['-o', t + '/prog'],
             'native harness ' + harness)
    return os.path.join(cached('nexe-%s-%s-%s%s-%s-%s' % (harness.replace('.', '_'), entry, variant, '-san' if san else '', source_key(), k), b), 'prog')


def prebuild(natives, variants=()):
    """Engine, bitcode and native libraries in parallel."""
    jobs = [engine] + [lambda v=v: libbc(v) for v in set(variants) | {n[0] for n in natives}] + \
           [lambda n=n: natlib(*n) for n in natives]
    with ThreadPoolExecutor(len(jobs)) as ex:
        for f in [ex.submit(j) for j in jobs]:
            f.result()
