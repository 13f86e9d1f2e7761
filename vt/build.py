"""Builds the compiler from /repo's current working tree in a private scratch directory."""
import atexit
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='verif-')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


class BuildError(Exception):
    pass


def tree():
    """a copy of the sources of /repo (no build products)"""
    d = os.path.join(scratch(), 'tree')
    if not os.path.isdir(d):
        os.makedirs(d)
        for n in ('src', 'lib', 'tools', 'mk', 'Makefile'):
            s = os.path.join(REPO, n)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(d, n), symlinks=True)
            else:
                shutil.copy(s, d)
        p = os.path.join(d, 'src', 'codegen.c')
        if os.path.lexists(p):
            os.unlink(p)
    return d


def arch_tree(arch):
    """a configured copy: config, src/codegen.c and out/libc.inc are in place"""
    d = os.path.join(scratch(), 'tree-' + arch)
    if not os.path.isdir(d):
        shutil.copytree(tree(), d, symlinks=True)
        env = dict(os.environ, LANG='C.UTF-8', CC='gcc', HOME=scratch(), PWD=d)
        for k in ('MAKEFLAGS', 'MAKELEVEL', 'OUT', 'ARCH'):
            env.pop(k, None)
        for tgt in (['config', 'ARCH=' + arch], ['out/libc.inc'], ['out/shecc']):
            r = subprocess.run(['make', *tgt], cwd=d, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            if r.returncode:
                raise BuildError('make %s failed for %s:\n%s' % (' '.join(tgt), arch, r.stdout[-3000:]))
    return d


def shecc(arch):
    return os.path.join(arch_tree(arch), 'out', 'shecc')
