"""Builds include-what-you-use from the current directory, for a demonstration.

/repo targets Clang 21 and this machine has Clang 20: an overlay copy of one Clang
header gets three small additions, and two enumerators are given as macros.
"""
import concurrent.futures
import glob
import os
import shutil
import subprocess
import sys
import tempfile

LLVM = '/usr/lib/llvm-20'
HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = [
    '-DIWYU_GIT_REV="x"', '-DIWYU_RESOURCE_DIR=""',
    '-DIWYU_RESOURCE_BINARY_PATH="%s/bin/clang-20"' % LLVM,
    '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
    '-D__STDC_LIMIT_MACROS', '-DCK_HLSLElementwiseCast=CastKind(120)',
    '-DCK_HLSLAggregateSplatCast=CastKind(121)', '-I%s/include' % LLVM,
    '-fPIC', '-w', '-O0', '-DNDEBUG', '-std=c++17', '-fno-exceptions',
    '-funwind-tables', '-fno-rtti']


def overlay(out):
    src = open(LLVM + '/include/clang/AST/Type.h').read()

    def insert(anchor, text, after):
        nonlocal src
        assert src.count(anchor) == 1, anchor
        src = src.replace(anchor, anchor + text if after else text + anchor)
    insert('  const Type *getClass() const { return Class; }\n'
           '  CXXRecordDecl *getMostRecentCXXRecordDecl() const;\n',
           '  NestedNameSpecifier *getQualifier() const '
           '{ return IwyuShimClassQualifier(Class); }\n', True)
    insert('  const IdentifierInfo *getIdentifier() const { return Name; }\n\n'
           '  ArrayRef<TemplateArgument> template_arguments() const {\n'
           '    return {reinterpret_cast<const TemplateArgument *>(this + 1),\n'
           '            DependentTemplateSpecializationTypeBits.NumArgs};',
           '  struct IwyuShimDTN { NestedNameSpecifier *Q; '
           'NestedNameSpecifier *getQualifier() const { return Q; } };\n'
           '  IwyuShimDTN getDependentTemplateName() const '
           '{ return {NNS}; }\n', False)
    insert('class MemberPointerType : public Type,',
           'NestedNameSpecifier *IwyuShimClassQualifier(const Type *Class);\n\n',
           False)
    os.makedirs(out + '/clang/AST')
    open(out + '/clang/AST/Type.h', 'w').write(src)


def build(out):
    overlay(out + '/overlay')
    srcs = glob.glob(os.getcwd() + '/iwyu*.cc') + [HERE + '/shim.cc']
    srcs.sort(key=os.path.getsize, reverse=True)

    def one(src):
        obj = '%s/%s.o' % (out, os.path.basename(src))
        subprocess.run([LLVM + '/bin/clang++', '-I' + out + '/overlay'] + FLAGS +
                       ['-I' + os.getcwd(), '-c', src, '-o', obj], check=True)
        return obj
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    subprocess.run([LLVM + '/bin/clang++'] + objs +
                   ['-o', out + '/iwyu', LLVM + '/lib/libclang-cpp.so.20.1',
                    LLVM + '/lib/libLLVM.so.1', '-Wl,-rpath,' + LLVM + '/lib'],
                   check=True)
    return out + '/iwyu'


def run(files, args):
    """(exit status, output) of analysing the files in a scratch directory."""
    top = tempfile.mkdtemp(prefix='demo-')
    try:
        exe = os.environ.get('DEMO_IWYU') or build(top)
        src = top + '/src'
        for name, text in files.items():
            os.makedirs(os.path.dirname(src + '/' + name), exist_ok=True)
            open(src + '/' + name, 'w').write(text)
        p = subprocess.run([exe] + args, cwd=src, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=120)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(top)


def runs(cases):
    """The same for several (files, args)."""
    top = tempfile.mkdtemp(prefix='demo-')
    try:
        os.environ['DEMO_IWYU'] = os.environ.get('DEMO_IWYU') or build(top)
        return [run(f, a) for f, a in cases]
    finally:
        shutil.rmtree(top)


def verdict(ok, what):
    print(what)
    sys.exit(0 if ok else 1)
