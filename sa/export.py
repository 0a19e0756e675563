"""Exports the type-checked program of /repo's current tree to JSON, one file per translation unit."""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')   # SA_REPO: only for selftest/run.py on scratch copies
PKG = REPO + '/rmw_dds_common'
CLANG_INC = '/usr/lib/llvm-18/lib/clang/18/include'


class ExportError(Exception):
    pass


def exporter():
    h = hashlib.sha256(open(VERIF + '/tool/exporter.cpp', 'rb').read()).hexdigest()[:16]
    p = '%s/build/exporter-%s' % (VERIF, h)
    if not os.access(p, os.X_OK):
        subprocess.run(['bash', VERIF + '/sa/build.sh'], check=True, stdout=sys.stderr)
    return p


def export(names=None, pkg=PKG, defines=()):
    """Returns ({tu name: json path}, scratch dir).  The caller removes the scratch dir."""
    exe = exporter()
    os.makedirs(VERIF + '/build', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='run.', dir=VERIF + '/build')
    gen = tmp + '/gen'
    r = subprocess.run([sys.executable, VERIF + '/tool/genmsg.py', pkg + '/msg', gen], capture_output=True, text=True)
    if r.returncode:
        shutil.rmtree(tmp)
        raise ExportError('message generation failed: ' + r.stderr[-500:])
    srcs = sorted(glob.glob(pkg + '/src/**/*.cpp', recursive=True))
    files = {}
    for s in sorted(glob.glob(VERIF + '/stubs/inst/*.cpp')):
        n = os.path.splitext(os.path.basename(s))[0]
        if names is None or n in names:
            files[n] = s
    for s in srcs:
        n = os.path.splitext(os.path.basename(s))[0]
        if names is None or n in names:
            files[n] = s
    flags = ['-std=c++17', '-I', VERIF + '/stubs/include', '-I', gen, '-I', pkg + '/include', '-I', pkg + '/src', '-I' + CLANG_INC]
    flags += ['-D' + d for d in defines]
    roots = '%s/,%s/stubs/,%s/' % (os.path.dirname(pkg), VERIF, gen)

    def one(item):
        n, s = item
        out = '%s/%s.json' % (tmp, n)
        r = subprocess.run([exe, out, roots, s, '--'] + flags, capture_output=True, text=True)
        return n, out, r

    res = {}
    with ThreadPoolExecutor(8) as ex:
        for n, out, r in ex.map(one, files.items()):
            if not os.path.exists(out):
                shutil.rmtree(tmp)
                raise ExportError('%s: %s' % (n, r.stderr[-1500:]))
            res[n] = out
    return res, tmp
