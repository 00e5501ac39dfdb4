#!/usr/bin/env python3
"""Builds lib-common's current working tree for simulation.

  vb.py TARGET...      TARGET = executable name listed in harness/targets.json

A shadow copy of /repo's working tree (tracked and untracked-but-not-ignored
files) is kept in /verif/build/tree; everything generated from it (.iop, .fc,
tokens, gperf, flex) is regenerated there with the tree's own tools. Nothing
is ever written to /repo. Source lists come from the tree's own wscript_build
files, so a file added to the build there is built here too.
"""
import os, sys, subprocess, json, hashlib, shutil, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
TREE = os.path.join(B, 'tree')

COMMON = ('-std=gnu11 -fblocks -funsigned-char -fno-strict-aliasing -fwrapv '
          '-march=x86-64-v2 -w -g1 -fno-omit-frame-pointer '
          '-D_GNU_SOURCE -DHAS_LIBCOMMON_REPOSITORY=0 -D__gcc_has_no_ifunc '
          '-U_FORTIFY_SOURCE \'-Dindex(s,c)=index__(s,c)\' '
          '-I. -Isrc/compat -I/usr/include/libxml2 -I/usr/include/valgrind '
          '-DHAVE_CLANG_C_INDEX_H=1 -DHAVE_LIBXML=1 -DHAVE_OPENSSL=1 '
          '-DHAVE_ZLIB=1 -DHAVE_VALGRIND=1 -DHAVE_SMILINT=1 '
          '-DLIBCOMMON_SIM=1')
VARIANTS = {
    # bootstrap tools
    'B': '-O0',
    # thread simulation: instrumented with our own __tsan_* runtime
    'T': '-O1 -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0',
    # single threaded simulation: AddressSanitizer
    'A': '-O1 -fsanitize=address -DSIM_VARIANT_A=1',
    # plain, for mmap heavy storage simulation
    'P': '-O1',
}
# spin loops of the uninstrumented variant must give way
RELAX = '-include %s ' % os.path.join(VERIF, 'sim/simrelax.h')
LIBS = '-lxml2 -lz -lssl -lcrypto -ldl -lm -lpthread -lrt -lutil'

def sync_tree():
    os.makedirs(TREE, exist_ok=True)
    out = subprocess.run(['git', '-C', REPO, 'ls-files', '-co', '-z',
                          '--exclude-standard', '--', 'src', 'build',
                          'lib-common', 'wscript'],
                         check=True, stdout=subprocess.PIPE).stdout
    want = set()
    for f in out.split(b'\0'):
        if not f:
            continue
        f = f.decode()
        s = os.path.join(REPO, f)
        d = os.path.join(TREE, f)
        if not os.path.lexists(s):
            continue
        want.add(f)
        if os.path.islink(s):
            if not os.path.lexists(d):
                os.makedirs(os.path.dirname(d), exist_ok=True)
                os.symlink(os.readlink(s), d)
            continue
        data = open(s, 'rb').read()
        try:
            if open(d, 'rb').read() == data:
                continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(d), exist_ok=True)
        with open(d, 'wb') as fd:
            fd.write(data)
        shutil.copymode(s, d)
    # drop files that disappeared from the source tree
    man = os.path.join(B, 'tree.list')
    if os.path.exists(man):
        for f in open(man).read().split('\n'):
            if f and f not in want:
                try:
                    os.unlink(os.path.join(TREE, f))
                except OSError:
                    pass
    with open(man, 'w') as fd:
        fd.write('\n'.join(sorted(want)))
    # what "waf configure" copies
    for s, d in (('src/core/str-l-obfuscate-default.c',
                  'src/core/str-l-obfuscate.c'),
                 ('src/iop/ic-cert-default.pem', 'src/iop/ic-cert.pem'),
                 ('src/iop/ic-key-default.pem', 'src/iop/ic-key.pem')):
        s = os.path.join(TREE, s)
        d = os.path.join(TREE, d)
        if os.path.exists(s) and (not os.path.exists(d) or
                                  open(s).read() != open(d).read()):
            shutil.copy(s, d)
    v = os.path.join(TREE, 'src/core-version.c')
    if not os.path.exists(v):
        open(v, 'w').write('char const libcommon_id[] = "sim";\n'
                           'char const libcommon_git_revision[] = "sim";\n'
                           'char const libcommon_git_sha1[] = "sim";\n')

class FakeCtx:
    """Records the stlib/program declarations of the wscript_build files."""
    class _Any:
        def __init__(self, *a, **k): pass
        def __getattr__(self, n): return FakeCtx._Any()
        def __call__(self, *a, **k): return FakeCtx._Any()
        def __enter__(self): return self
        def __exit__(self, *a): return False
        def __bool__(self): return True
        def __iter__(self): return iter(())
    def __init__(self):
        self.decl = {}
        self.dirs = []
        self.env = FakeCtx._Any()
        self.UseGroup = FakeCtx._Any
        self.IopcOptions = FakeCtx._Any
    def __getattr__(self, n): return FakeCtx._Any()
    def __call__(self, *a, **k): return FakeCtx._Any()
    def _rec(self, target=None, source=(), **k):
        if isinstance(source, str):
            source = source.split()
        self.decl[target] = [os.path.normpath(os.path.join(self.dirs[-1], s))
                             for s in source]
        return FakeCtx._Any()
    stlib = program = shlib = _rec
    def recurse(self, dirs):
        for d in ([dirs] if isinstance(dirs, str) else dirs):
            self.load(os.path.join(self.dirs[-1], d))
    def load(self, d):
        p = os.path.join(TREE, d, 'wscript_build')
        if not os.path.exists(p) or os.path.basename(d) in (
                'clang-rewrite-blocks', 'pxcc', 'libcommon_cython', 'iopy'):
            return
        self.dirs.append(d)
        exec(compile(open(p).read(), p, 'exec'), {'ctx': self})
        self.dirs.pop()

def q(p):
    return p.replace('$', '$$').replace(' ', '$ ')

def write_if_changed(path, data):
    try:
        if open(path).read() == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, 'w').write(data)

def gen_ninja():
    ctx = FakeCtx()
    ctx.load('src')
    decl = ctx.decl
    cfg = json.load(open(os.path.join(VERIF, 'harness/targets.json')))
    n = []
    n.append('ninja_required_version = 1.5')
    n.append('builddir = %s' % B)
    for v, fl in VARIANTS.items():
        n.append('rule cc%s\n command = clang -x c %s %s $xflags -MMD -MF $out.d -c $in -o $out\n'
                 ' depfile = $out.d\n deps = gcc\n description = CC[%s] $in' % (v, COMMON, fl, v))
        # incremental builds must not see objects deleted from the list
    n.append('rule ar\n command = rm -f $out && ar crs $out $in\n description = AR $out')
    n.append('rule link\n command = clang $lflags -o $out $in $libs\n description = LINK $out')
    n.append('rule cmd\n command = $c\n description = GEN $out\n restat = 1')

    gen_hdrs = []      # order-only deps of library compilation
    done = set()
    def T(p): return os.path.join(TREE, p)
    def rule_cmd(outs, ins, cmd):
        key = tuple(outs)
        if key in done:
            return
        done.add(key)
        n.append('build %s: cmd %s\n c = %s' % (
            ' '.join(q(o) for o in outs), ' '.join(q(i) for i in ins), cmd.replace('$', '$$')))
    farchc = os.path.join(B, 'bin/farchc')
    iopc = os.path.join(B, 'bin/iopc')

    def expand(src, stage_hdrs):
        """-> list of C-like files to compile for one wscript source"""
        base, ext = os.path.splitext(src)
        if ext in ('.c', '.blk'):
            return [src]
        if ext == '.fc':
            o = T(src + '.c')
            deps = []
            var = False
            for l in open(T(src)):
                l = l.strip()
                if l and l[0] != '#':
                    if var:
                        deps.append(os.path.join(os.path.dirname(T(src)), l))
                    var = True
            rule_cmd([o], [T(src), farchc] + deps,
                     'rm -f %s && %s -c -o %s %s' % (o, farchc, o, T(src)))
            stage_hdrs.append(o)
            return []
        if ext == '.tokens':
            o = T(base + 'tokens')
            rule_cmd([o + '.c', o + '.h'], [T(src), T('build/tokens.sh')],
                     'cd %s && sh -c "%s %s %s.c && %s %s %s.h"' % (
                         TREE, 'build/tokens.sh', T(src), o, 'build/tokens.sh', T(src), o))
            stage_hdrs.append(o + '.h')
            return [base + 'tokens.c']
        if ext == '.perf':
            rule_cmd([T(base + '.c')], [T(src)], 'cd %s && gperf --language ANSI-C --output-file %s %s' % (
                TREE, base + '.c', src))
            return [base + '.c']
        if ext == '.l':
            rule_cmd([T(base + '.c')], [T(src), T('build/flex.sh')],
                     'cd %s && rm -f %s.c && build/flex.sh %s %s.c' % (TREE, base, src, base))
            return [base + '.c']
        if ext == '.iop':
            d = os.path.dirname(T(src))
            b = os.path.basename(base)
            outs = [T(base + x) for x in ('.iop.c', '.iop.h', '-tdef.iop.h', '-t.iop.h')]
            rule_cmd(outs, [T(src), iopc],
                     'cd %s && %s --Wextra --language c --c-resolve-includes -I%s:%s:%s:%s --class-id-range=1-499 %s' % (
                         d, iopc, T('src/core'), T('src/iop'), T('src'), T('.'), T(src)))
            stage_hdrs.extend(outs[1:])
            return [base + '.iop.c']
        raise SystemExit('vb: unknown source type %s' % src)

    def objs(v, srcs, order, xflags='', sub=''):
        res = []
        for s in srcs:
            path = s if os.path.isabs(s) else T(s)
            root = TREE if path.startswith(TREE) else VERIF if path.startswith(VERIF + '/') and not path.startswith(B) else B
            o = os.path.join(B, 'obj', v + sub, os.path.relpath(path, root) + '.o')
            if o not in done:
                done.add(o)
                n.append('build %s: cc%s %s || %s%s' % (q(o), v, q(path), ' '.join(q(x) for x in order),
                         '\n xflags = ' + xflags if xflags else ''))
            res.append(o)
        return res

    mini, lib, iopl, iopcs = [], [], [], []
    h0, h1 = [], []
    for s in decl['libcommon-minimal']:
        mini += expand(s, h0)
    huff = []
    for kind in ('encoding', 'decoding'):
        o = 'src/net/hpack-huffman-%s-table.c' % kind
        rule_cmd([T(o)], [T('src/net/rfc7541-tables.txt'), T('src/net/hpack-generate-huffman-tables.py'),
                          T('src/net/hpack-priv.h')],
                 'cd %s && python3 net/hpack-generate-huffman-tables.py for-%s --rfc net/rfc7541-tables.txt --out %s' % (
                     T('src'), kind, T(o)))
        huff.append(T(o))
    for s in decl['libiopc']:
        iopcs += expand(s, h0)
    for s in decl['libcommon-iop']:
        iopl += expand(s, h1)
    for s in decl['libcommon']:
        lib += expand(s, h1)
    # bootstrap
    mb = objs('B', mini, [])
    n.append('build %s: ar %s' % (os.path.join(B, 'lib/B-mini.a'), ' '.join(map(q, mb))))
    n.append('build %s: ar %s' % (os.path.join(B, 'lib/B-iopc.a'), ' '.join(map(q, objs('B', iopcs, h0)))))
    for prog, extra, order, libs in ((farchc, decl['farchc'], [], ''),
                                     (iopc, decl['iopc'], h0, os.path.join(B, 'lib/B-iopc.a'))):
        ob = objs('B', extra, order)
        n.append('build %s: link %s %s %s\n libs = %s' % (prog, ' '.join(map(q, ob)), libs,
                 os.path.join(B, 'lib/B-mini.a'), LIBS))
    # harness .iop interfaces
    allh = h0 + h1 + huff
    for v in ('T', 'A', 'P'):
        o = objs(v, mini + iopl + lib, allh, RELAX if v == 'P' else '')
        n.append('build %s: ar %s' % (os.path.join(B, 'lib/%s.a' % v), ' '.join(map(q, o))))
    bins = []
    hiop = []
    hiopc = {}
    for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
        if f.endswith('.iop'):
            src = os.path.join(VERIF, 'harness', f)
            dst = os.path.join(B, 'gen', f)
            base = dst[:-4]
            outs = [base + x for x in ('.iop.c', '.iop.h', '-tdef.iop.h', '-t.iop.h')]
            rule_cmd(outs, [src, iopc],
                     'mkdir -p %s && cp %s %s && cd %s && %s --Wextra --language c --c-resolve-includes -I%s:%s:%s:%s --class-id-range=1-499 %s' % (
                         os.path.dirname(dst), src, dst, os.path.dirname(dst), iopc,
                         T('src/core'), T('src/iop'), T('src'), T('.'), dst))
            hiop += outs[1:]
            hiopc[f] = base + '.iop.c'
    for name, t in cfg.items():
        v = t['variant']
        inc = '-I%s -I%s -I%s' % (os.path.join(VERIF, 'sim'), os.path.join(VERIF, 'harness'), os.path.join(B, 'gen'))
        hs = [os.path.join(VERIF, 'harness', s) for s in t['src']]
        iops = [hiopc[s] for s in t.get('iop', [])]
        ho = objs(v, hs + iops, allh + hiop, inc + ' ' + (RELAX if v == 'P' else '') + t.get('cflags', ''), '-' + name)
        # the simulator itself is never instrumented
        ss = [os.path.join(VERIF, 'sim', s) for s in t.get('sim', [])]
        so = objs('P', ss, [], inc + ' -O2 -DSIM_VARIANT_%s=1 ' % v, '-sim' + v)
        wraps = []
        for wf in t.get('wrap', []):
            wraps += [l.split('#')[0].strip() for l in open(os.path.join(VERIF, 'sim', wf))]
        wraps = sorted(set(w for w in wraps if w))
        lf = ' '.join('-Wl,--wrap=' + w for w in wraps) + ' -rdynamic -no-pie -fuse-ld=lld' 
        if not shutil.which('ld.lld'):
            lf = lf.replace(' -fuse-ld=lld', '')
        if v == 'A':
            lf += ' -fsanitize=address'
        out = os.path.join(B, 'bin', name)
        n.append('build %s: link %s %s\n lflags = %s\n libs = %s' % (
            out, ' '.join(map(q, ho + so)), os.path.join(B, 'lib/%s.a' % v), lf, LIBS))
        n.append('build %s: phony %s' % (name, out))
    n.append('build all: phony ' + ' '.join(os.path.join(B, 'bin', x) for x in cfg))
    write_if_changed(os.path.join(B, 'build.ninja'), '\n'.join(n) + '\n')

def build(targets, quiet=True):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sync_tree()
        gen_ninja()
        r = subprocess.run(['ninja', '-f', os.path.join(B, 'build.ninja'), '-k', '0' if not quiet else '1'] + list(targets),
                           cwd=TREE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            o = r.stdout.decode(errors='replace')
            i = o.find('FAILED')
            sys.stderr.write(o[max(i, 0):][:6000])
        return r.returncode

if __name__ == '__main__':
    sys.exit(build(sys.argv[1:]))
