"""Translation validation: the executable the compiler produced vs. the reference semantics of its source,
decided by the solver for every input value on every path."""
import hashlib
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback
import z3
from . import build, cpu, llir
from .sym import *

sys.setrecursionlimit(100000)
QEMU = {'arm': 'qemu-arm', 'riscv': 'qemu-riscv32'}
SYSN = {'arm': dict(SYS_READ='3', SYS_WRITE='4', SYS_EXIT='1'),
        'riscv': dict(SYS_READ='63', SYS_WRITE='64', SYS_EXIT='93')}

CLANG_PRELUDE = 'int __syscall();\n'


class Job:
    def __init__(self, name, src, arch, flags=('--no-libc',), argv=(b'prog',), oracle_prelude='', oracle_src=None,
                 deadline=60, max_paths=3000, max_steps=200000, tags=(), max_conc=80, arith=False):
        self.name, self.src, self.arch, self.flags, self.argv = name, src, arch, tuple(flags), tuple(argv)
        self.oracle_prelude, self.oracle_src = oracle_prelude, oracle_src
        self.deadline, self.max_paths, self.max_steps, self.tags = deadline, max_paths, max_steps, tags
        self.max_conc = max_conc
        self.arith = arith


class Result:
    def __init__(self, job):
        self.name, self.arch, self.flags = job.name, job.arch, job.flags
        self.src = job.src
        self.violation = None      # (kind, detail, input bytes, expected, got)
        self.inconclusive = None
        self.stats = Stats()
        self.insns = 0
        self.wall = 0.0


def arch_text(src, arch):
    for k, v in SYSN[arch].items():
        src = src.replace(k, v)
    return src


def compile_shecc(job, d, shecc=None):
    p = os.path.join(d, 'p.c')
    with open(p, 'w') as f:
        f.write(arch_text(job.src, job.arch))
    o = os.path.join(d, 'p.elf')
    try:
        r = subprocess.run([shecc or build.shecc(job.arch), *job.flags, '-o', o, p], cwd=d, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        return None, 'the compiler does not terminate'
    if r.returncode or not os.path.exists(o):
        return None, 'the compiler failed (exit %d): %s' % (r.returncode, r.stdout.decode('latin1')[-300:])
    return o, None


def run_qemu(job, elf, data):
    os.chmod(elf, 0o755)
    try:
        r = subprocess.run([QEMU[job.arch], elf, *[a.decode('latin1') for a in job.argv[1:]]], input=data,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', b''


def model_input(m, n):
    bs = []
    for i in range(n):
        v = m.eval(z3.BitVec('in%d' % i, 8), model_completion=True)
        bs.append(v.as_long())
    return bytes(bs)


def ev(m, x, bits=32):
    if isinstance(x, int):
        return x
    return m.eval(x, model_completion=True).as_long()


def word_terms(bs):
    """group bytes in words so that equal words compare syntactically"""
    out = []
    i = 0
    while i < len(bs):
        if i + 4 <= len(bs):
            out.append(cat4(bs[i:i + 4]))
            i += 4
        else:
            out.append(zext8(bs[i]))
            i += 1
    return out


def validate(job, shecc=None):
    res = Result(job)
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix='tv-', dir=build.scratch()) as d:
        try:
            _validate(job, res, d, shecc)
        except Budget as e:
            res.inconclusive = str(e)
        except (llir.IRError, RecursionError, z3.Z3Exception) as e:
            res.inconclusive = 'harness: %s: %s' % (type(e).__name__, str(e)[:300])
    res.wall = time.time() - t0
    return res


class Found(Exception):
    pass


def _validate(job, res, d, shecc):
    elf, err = compile_shecc(job, d, shecc)
    op = os.path.join(d, 'oracle.c')
    with open(op, 'w') as f:
        f.write(CLANG_PRELUDE + job.oracle_prelude + arch_text(job.oracle_src or job.src, job.arch))
    mod = llir.compile_ir(op, job.arch)       # also proves the source is valid C
    if err:
        res.violation = ('compile', err, b'', None, None)
        return
    with open(elf, 'rb') as f:
        data = f.read()
    eng = Engine(deadline=t_deadline(job), max_steps=job.max_steps, max_paths=job.max_paths, max_conc=job.max_conc, arith=job.arith)
    res.stats = eng.st
    try:
        m = cpu.load(data, job.argv)
    except (ValueError, KeyError, IndexError, cpu.struct.error) as e:
        res.violation = ('image', 'unusable executable: %r' % (e,), b'', None, None)
        return

    def leaf(mach, fault):
        res.insns += mach.steps
        o = llir.IRMachine(mod, job.argv)

        def oleaf(om, ofault):
            if ofault:
                raise Budget('reference program misbehaves: ' + ofault)
            eng.st.compared += 1
            if fault or len(mach.out) != len(om.out):
                ds = [z3.BoolVal(True)]
            else:
                ds = []
                for a, b in (zip(map(zext8, mach.out), map(zext8, om.out)) if job.arith else
                             zip(word_terms(mach.out), word_terms(om.out))):
                    c = eq(a, b)
                    if c is True:
                        continue
                    ds.append(z3.BoolVal(True) if c is False else z3.Not(c))
                c = eq(and_(mach.exit, 0xFF), and_(om.exit, 0xFF))
                if c is not True:
                    ds.append(z3.BoolVal(True) if c is False else z3.Not(c))
                ds = ds if job.arith else [z3.simplify(x) for x in ds]
                ds = [x for x in ds if not z3.is_false(x)]
            unsettled = None
            for bad in ds:
                try:
                    mod_ = eng.refute(bad)
                except Budget as e:
                    unsettled = e
                    continue
                if mod_ is not None:
                    break
            else:
                if unsettled:
                    raise unsettled
                return
            n = max(mach.inpos, om.inpos)
            inp = model_input(mod_, n)
            exp_out = bytes(ev(mod_, b) & 0xFF for b in om.out)
            exp_rc = ev(mod_, om.exit) & 0xFF
            rc, out = run_qemu(job, elf, inp)
            got = (rc, out)
            if (rc, out) != (exp_rc, exp_out):
                detail = fault or 'result differs'
                res.violation = ('semantic', detail, inp, (exp_rc, exp_out), got)
                raise Found()
            raise Budget('counterexample does not reproduce (%s) input=%s' % (fault or 'result differs', inp.hex()))
        # the reference explores under the same path condition
        saved = eng.st.paths
        eng.explore(o, oleaf)
        eng.st.paths = saved
    try:
        eng.explore(m, leaf)
    except Found:
        pass


def t_deadline(job):
    return time.time() + job.deadline


def _work(a):
    job, = a
    try:
        return validate(job)
    except Exception:
        r = Result(job)
        r.inconclusive = 'harness error: ' + traceback.format_exc()[-800:]
        return r


def run_jobs(jobs, nproc=8, wall=None):
    """validate all jobs in parallel; yields results; jobs not started before `wall` seconds are dropped"""
    for a in {j.arch for j in jobs}:
        build.shecc(a)
    t0 = time.time()
    with mp.get_context('fork').Pool(nproc) as pool:
        it = pool.imap_unordered(_work, [(j,) for j in jobs], chunksize=1)
        n = 0
        while n < len(jobs):
            left = None if wall is None else wall - (time.time() - t0)
            try:
                r = it.next(timeout=left if left is None else max(left, 0.05))
            except StopIteration:
                break
            except mp.TimeoutError:
                pool.terminate()
                break
            n += 1
            yield r
