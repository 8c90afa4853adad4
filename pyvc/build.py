"""Scratch copy of the code under test, with a freshly built _helpers.so."""
import os, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('PYVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CFLAGS = ('-fPIC -I/usr/include/python3.12 -fno-strict-overflow -Wsign-compare -DNDEBUG -O1 '
          '-fno-strict-aliasing -fwrapv -D_FILE_OFFSET_BITS=64 -D_DEFAULT_SOURCE '
          '-DBUP_RL_EXPECTED_XOPEN_SOURCE=600').split()
SRCS = ['lib/bup/_hashsplit.c', 'lib/bup/_helpers.c', 'lib/bup/bupsplit.c', 'src/bup/pyutil.c']


def scratch_build(root=None):
    """-> scratch directory D; D/lib is importable."""
    d = root or tempfile.mkdtemp(prefix='pyvc-')
    ign = shutil.ignore_patterns('*.o', '*.so', '*.d', '__pycache__', '*.pyc')
    for sub in ('lib', 'src'):
        shutil.copytree(f'{REPO}/{sub}', f'{d}/{sub}', ignore=ign, symlinks=True)
    os.makedirs(f'{d}/config', exist_ok=True)
    for f, dst in (('config.h', 'config/config.h'), ('config.vars', 'config/config.vars')):
        src = f'{REPO}/config/{f}'
        shutil.copy(src if os.path.exists(src) else f'{VERIF}/support/{f}', f'{d}/{dst}')
    if not os.path.exists(f'{d}/lib/bup/checkout_info.py'):
        shutil.copy(f'{VERIF}/support/checkout_info.py', f'{d}/lib/bup/checkout_info.py')
    # bup runs itself for some steps
    with open(f'{d}/lib/cmd/bup', 'w') as f:
        f.write(f'#!/bin/sh\nexec {shlex.quote(sys.executable)} {shlex.quote(VERIF)}/pyvc/bupmain.py '
                f'{shlex.quote(d)}/lib "$@"\n')
    os.chmod(f'{d}/lib/cmd/bup', 0o755)

    srcs = list(SRCS)

    def cc(s):
        o = f'{d}/{os.path.basename(s)}.o'
        r = subprocess.run(['gcc', *CFLAGS, f'-I{d}/src', f'-I{d}/lib/bup', '-c', s, '-o', o],
                           cwd=d, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('build failed: ' + r.stderr[-2000:])
        return o
    with ThreadPoolExecutor(4) as ex:
        objs = list(ex.map(cc, srcs))
    r = subprocess.run(['gcc', *objs, '-shared', '-ldl', '-lm', '-lreadline', '-lacl',
                        '-o', f'{d}/lib/bup/_helpers.so'], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('link failed: ' + r.stderr[-2000:])
    return d
