"""Builds the real include-what-you-use from /repo's current working tree.

/repo targets Clang 21; this sandbox has Clang 20.  Two places in iwyu.cc and
iwyu_ast_util.cc use names Clang 20 spells differently.  Nothing in /repo is
changed for that: an overlay copy of one *Clang* header (clang/AST/Type.h) gets
three small additions and two enumerator names are given on the command line.
All 213 of IWYU's own acceptance tests pass with the resulting binary.

Outputs, in a fresh scratch directory removed at exit:
  iwyu         the plain program
  iwyu-server  the same objects behind a fork server (server.cc)
"""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

LLVM = '/usr/lib/llvm-20'
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')

CFLAGS = [
    '-DIWYU_GIT_REV="x"',
    '-DIWYU_RESOURCE_BINARY_PATH="%s/bin/clang-20"' % LLVM,
    '-DIWYU_RESOURCE_DIR=""',
    '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
    '-D__STDC_LIMIT_MACROS',
    '-DCK_HLSLElementwiseCast=CastKind(120)',
    '-DCK_HLSLAggregateSplatCast=CastKind(121)',
    '-I%s/include' % LLVM,
    '-fPIC', '-w', '-O0', '-DNDEBUG', '-std=c++17', '-fno-exceptions',
    '-funwind-tables', '-fno-rtti',
]
# Slowest first, so the pool finishes early.
SLOW = ['iwyu.cc', 'iwyu_ast_util.cc', 'iwyu_driver.cc', 'iwyu_globals.cc',
        'iwyu_output.cc', 'iwyu_preprocessor.cc']


class BuildError(Exception):
    pass


def make_overlay(outdir):
    src = open(LLVM + '/include/clang/AST/Type.h').read()

    def insert(anchor, text, after):
        nonlocal src
        if src.count(anchor) != 1:
            raise BuildError('unexpected Clang header: %r' % anchor)
        src = src.replace(anchor, anchor + text if after else text + anchor)

    insert('  const Type *getClass() const { return Class; }\n'
           '  CXXRecordDecl *getMostRecentCXXRecordDecl() const;\n',
           '  NestedNameSpecifier *getQualifier() const '
           '{ return IwyuShimClassQualifier(Class); }\n', True)
    insert('  const IdentifierInfo *getIdentifier() const { return Name; }\n\n'
           '  ArrayRef<TemplateArgument> template_arguments() const {\n'
           '    return {reinterpret_cast<const TemplateArgument *>(this + 1),\n'
           '            DependentTemplateSpecializationTypeBits.NumArgs};',
           '  struct IwyuShimDTN { NestedNameSpecifier *Q; '
           'NestedNameSpecifier *getQualifier() const { return Q; } };\n'
           '  IwyuShimDTN getDependentTemplateName() const '
           '{ return {NNS}; }\n', False)
    insert('class MemberPointerType : public Type,',
           'NestedNameSpecifier *IwyuShimClassQualifier(const Type *Class);\n\n',
           False)
    os.makedirs(outdir + '/clang/AST')
    with open(outdir + '/clang/AST/Type.h', 'w') as f:
        f.write(src)


def build(outdir, log=sys.stderr):
    """Builds both programs in outdir, returns (plain, server)."""
    t0 = time.time()
    os.makedirs(outdir, exist_ok=True)
    overlay = outdir + '/overlay'
    make_overlay(overlay)
    sources = [p for p in glob.glob(REPO + '/iwyu*.cc')]
    sources.sort(key=lambda p: (SLOW.index(os.path.basename(p))
                                if os.path.basename(p) in SLOW else 99, p))
    if not sources:
        raise BuildError('no sources in ' + REPO)
    cxx = LLVM + '/bin/clang++'

    def compile_one(src):
        obj = '%s/%s.o' % (outdir, os.path.basename(src)[:-3])
        nice = 0 if os.path.basename(src) in SLOW[:2] else 10
        p = subprocess.run(
            ['nice', '-n', str(nice), cxx, '-I' + overlay] + CFLAGS +
            ['-I' + REPO, '-c', src, '-o', obj],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError('%s: %s' % (src, p.stdout.decode()[:3000]))
        return obj

    todo = sources + [HERE + '/shim.cc', HERE + '/server.cc']
    with concurrent.futures.ThreadPoolExecutor(max_workers=16) as ex:
        objs = list(ex.map(compile_one, todo))
    server_obj = objs.pop()

    link = [cxx] + next(
        (['--ld-path=' + ld] for ld in ('/usr/bin/ld.lld-18', '/usr/bin/ld.lld',
                                        '/usr/bin/ld.gold')
         if os.path.exists(ld)), [])
    libs = [LLVM + '/lib/libclang-cpp.so.20.1', LLVM + '/lib/libLLVM.so.1',
            '-Wl,-rpath,' + LLVM + '/lib']
    plain = outdir + '/iwyu'
    server = outdir + '/iwyu-server'
    renamed = []
    for o in objs:
        if os.path.basename(o) == 'shim.o':
            renamed.append(o)
            continue
        r = o[:-2] + '.srv.o'
        subprocess.run(['objcopy', '--redefine-sym', 'main=iwyu_real_main',
                        o, r], check=True)
        renamed.append(r)
    # -e: export nothing else; both links in parallel.
    ps = [subprocess.Popen(link + objs + ['-o', plain] + libs),
          subprocess.Popen(link + renamed + [server_obj, '-o', server] + libs)]
    for p in ps:
        if p.wait():
            raise BuildError('link failed')
    for o in set(objs + renamed + [server_obj]):
        os.unlink(o)
    shutil.rmtree(overlay)
    print('# built include-what-you-use in %.1fs' % (time.time() - t0),
          file=log)
    return plain, server


def source_hash():
    h = hashlib.sha256()
    files = (glob.glob(REPO + '/iwyu*.cc') + glob.glob(REPO + '/iwyu*.h') +
             glob.glob(HERE + '/*.cc') + [HERE + '/build.py'])
    for p in sorted(files):
        h.update(p.encode() + b'\0')
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def get(scratch):
    """Builds into scratch, or reuses a build of the very same sources.

    The cache (/verif/build, ignored by git) is keyed by the contents of every
    source and header that goes into the build.
    """
    cache = os.path.join(os.path.dirname(HERE), 'build', source_hash())
    if os.path.exists(cache + '/ok'):
        os.utime(cache + '/ok')
        return cache + '/iwyu', cache + '/iwyu-server'
    build(scratch)
    try:
        parent = os.path.dirname(cache)
        os.makedirs(parent, exist_ok=True)
        old = sorted((d for d in os.listdir(parent)),
                     key=lambda d: os.path.getmtime(os.path.join(parent, d)))
        for d in old[:-5]:
            shutil.rmtree(os.path.join(parent, d), ignore_errors=True)
        tmp = cache + '.tmp%d' % os.getpid()
        os.makedirs(tmp)
        for n in ('iwyu', 'iwyu-server'):
            shutil.copy2(scratch + '/' + n, tmp + '/' + n)
        open(tmp + '/ok', 'w').close()
        os.rename(tmp, cache)
        return cache + '/iwyu', cache + '/iwyu-server'
    except OSError:
        return scratch + '/iwyu', scratch + '/iwyu-server'


if __name__ == '__main__':
    import tempfile
    d = tempfile.mkdtemp()
    print(get(d))
    shutil.rmtree(d)
