"""Front end: compiles the translation units named by /repo/src/CMakeLists.txt to (unoptimised, SSA-promoted) LLVM IR
with clang and links them into one typed module.  Nothing is executed."""
import os
import re
import subprocess
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import irparse

REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = ['clang++', '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-exceptions',
       '-fno-math-errno', '-gline-tables-only', '-fno-discard-value-names', '-w', '-S', '-emit-llvm']
PASSES = 'sroa,mem2reg'


class FrontEndError(Exception):
    pass


def library_sources(root=None):
    """The translation units that CMake compiles into the library."""
    root = root or REPO
    cm = os.path.join(root, 'src', 'CMakeLists.txt')
    txt = re.sub(r'#.*', '', open(cm).read())
    names = set(re.findall(r'[\w./-]+\.(?:cc|cpp|cxx)\b', txt))
    if re.search(r'file\s*\(\s*GLOB', txt, re.I):
        names |= {f for f in os.listdir(os.path.join(root, 'src')) if f.endswith(('.cc', '.cpp', '.cxx'))}
    srcs = sorted(os.path.join(root, 'src', n) for n in names)
    srcs = [s for s in srcs if os.path.exists(s)]
    if len(srcs) < 50:
        raise FrontEndError('library source list not found in %s' % cm)
    return srcs


def _run(cmd, inp=None):
    r = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise FrontEndError('%s failed: %s' % (cmd[0], r.stderr.decode()[-2000:]))
    return r.stdout


def compile_ir(sources, flags=(), incs=(), passes=PASSES):
    """returns the text of the linked module"""
    tmp = tempfile.mkdtemp(prefix='slair.')
    try:
        def one(k):
            out = os.path.join(tmp, '%04d.ll' % k)
            _run(CXX + list(flags) + ['-I' + d for d in incs] + [sources[k], '-o', out])
            _run(['opt', '-S', '-passes=' + passes, out, '-o', out])
            return out
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            outs = list(ex.map(one, range(len(sources))))
        if len(outs) == 1:
            return open(outs[0]).read()
        return _run(['llvm-link', '-S'] + outs).decode()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def load_library(flags=(), root=None):
    return irparse.parse_module(compile_ir(library_sources(root), flags))


def load_files(files, flags=(), incs=()):
    return irparse.parse_module(compile_ir(files, flags, incs))
