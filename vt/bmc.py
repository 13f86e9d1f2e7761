"""Engine B: cbmc on harnesses (bmc/h_*.c) that include the compiler's real sources."""
import json
import os
import re
import shutil
import resource
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
from . import build

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'bmc')


class H:
    def __init__(self, file, fn, archs=('arm', 'riscv'), unwind=33, functions=(), bounds='', memory=False, defines=(),
                 unwindset='', real=False, tier='quick', timeout=None, replace='', fields=0, shrink=()):
        self.file, self.fn, self.archs, self.unwind, self.functions, self.bounds = file, fn, archs, unwind, functions, bounds
        self.memory, self.defines, self.unwindset, self.real, self.tier = memory, tuple(defines), unwindset, real, tier
        self.timeout, self.replace, self.fields, self.shrink = timeout, replace, fields, tuple(shrink)


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def sh(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         preexec_fn=_limit)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode('latin1')
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, ''


def common_args(arch, h, real):
    a = ['-D' + ('T_ARM' if arch == 'arm' else 'T_RV'), '-I.', '-I' + HERE] + ['-D' + d for d in h.defines]
    return a + (['-DBMC_REAL'] if real else [])


def sources(arch, h):
    """the real sources; for harnesses on large tables, the same with smaller tables (a bound)"""
    src = os.path.join(build.arch_tree(arch), 'src')
    if not h.shrink:
        return src
    new = os.path.join(build.arch_tree(arch), 'src-' + '-'.join('%s-%d' % x for x in h.shrink))
    if not os.path.exists(new):
        shutil.copytree(src, new, symlinks=True)
        f = os.path.join(new, 'defs.h')
        with open(f) as fp:
            t = fp.read()
        for n, v in h.shrink:
            t = re.sub(r'(#define %s) \d+' % n, r'\1 %d' % v, t)
        with open(f, 'w') as fp:
            fp.write(t)
    return new


_gb = {}


def goto(arch, h, real=False):
    key = (arch, h.file, h.defines, real, str(h.replace), h.shrink)
    if key not in _gb:
        src = sources(arch, h)
        out = os.path.join(build.scratch(), 'h%d.gb' % len(_gb))
        rc, o = sh(['goto-cc', '-DBMC', *common_args(arch, h, real), os.path.join(HERE, 'h_%s.c' % h.file), '-o', out], src, 120)
        for r in (h.replace.get(arch, '') if isinstance(h.replace, dict) else h.replace).split():
            if rc == 0:
                rc, o = sh(['goto-instrument', *(['--replace-calls', r] if ':' in r else ['--remove-function-body', r]), out, out], src, 120)
        _gb[key] = (out, None) if rc == 0 and os.path.exists(out) else (None, o[-800:])
    return _gb[key]


def cbmc(arch, h, timeout, real=False, props=()):
    gb, err = goto(arch, h, real)
    if not gb:
        return {'err': 'harness does not compile: ' + err}
    cmd = ['cbmc', gb, '--function', h.fn, '--unwind', str(h.unwind), '--unwinding-assertions', '--json-ui', '--trace',
           '--drop-unused-functions', '--verbosity', '8']
    # slicing also removes the record of the inputs; once something has failed, it is needed
    if props:
        for q in props:
            cmd += ['--property', q]
    else:
        cmd.append('--slice-formula')
    if h.fields:
        cmd += ['--max-field-sensitivity-array-size', str(h.fields), '--object-bits', '12']
    if h.unwindset:
        cmd += ['--unwindset', h.unwindset]
    cmd += ['--pointer-check', '--bounds-check', '--no-malloc-may-fail'] if h.memory else ['--no-standard-checks', '--no-malloc-may-fail']
    if not h.memory:
        cmd.append('--no-built-in-assertions')
    t = time.time()
    rc, o = sh(cmd, build.scratch(), timeout)
    if rc is None:
        return {'err': 'no verdict within %d s' % timeout}
    try:
        js = json.loads(o)
    except ValueError:
        return {'err': 'cbmc: ' + o[-300:]}
    res, solver = None, 0.0
    for e in js:
        if 'result' in e:
            res = e['result']
        m = re.match(r'Runtime (Solver|decision procedure): ([\d.e-]+)s', e.get('messageText', ''))
        if m and m.group(1) == 'Solver':
            solver += float(m.group(2))
    if res is None:
        return {'err': 'cbmc gave no result: ' + ' '.join(e.get('messageText', '') for e in js)[-300:]}
    out = {'solver_s': round(solver, 2), 'wall_s': round(time.time() - t, 1), 'obligations': 0, 'discharged': 0, 'failed': [],
           'reached': False, 'open': []}
    for r in res:
        d = r.get('description', '')
        if d == 'REACH':
            out['reached'] |= r['status'] == 'FAILURE'
            continue
        out['obligations'] += 1
        if r['status'] == 'SUCCESS':
            out['discharged'] += 1
        elif r['status'] == 'FAILURE' and (d.startswith('PROP ') or (h.memory and not d.startswith('MODEL ') and 'unwinding' not in d)):
            vals = {}
            for s in r.get('trace', []):
                m = re.match(r'bmc_in_val\[(\d+)l*\]$', s.get('lhs', '')) if s.get('stepType') == 'assignment' else None
                if m and not s.get('hidden_'):
                    v = s.get('value', {})
                    vals[int(m.group(1))] = int(v['binary'], 2) if 'binary' in v else 0
            n = max(vals, default=-1) + 1
            out['failed'].append((d.replace('PROP ', '', 1), [vals.get(i, 0) for i in range(n)],
                                  r.get('sourceLocation', {}).get('function', '')))
            out.setdefault('names', []).append(r.get('property', ''))
        else:
            out['open'].append('%s: %s' % (r['status'], d))
    return out


def replay(arch, h, inputs):
    """runs the real code natively on the counterexample: the message it violates, or None"""
    src = sources(arch, h)
    exe = os.path.join(build.scratch(), 'n-%s-%s-%s' % (arch, h.file, h.fn))
    if not os.path.exists(exe):
        san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'] if h.memory else []
        rc, o = sh(['gcc', '-w', '-g', '-O0', *san, '-DBMC_FN=' + h.fn, *common_args(arch, h, False),
                    os.path.join(HERE, 'h_%s.c' % h.file), '-o', exe], src, 120)
        if rc:
            return None, 'the replay does not compile: ' + o[-300:]
    f = exe + '.in'
    with open(f, 'w') as fp:
        fp.write(' '.join(map(str, inputs)))
    try:
        p = subprocess.run([exe, f], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30,
                           cwd=build.scratch(), env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='halt_on_error=1'))
    except subprocess.TimeoutExpired:
        return 'the code does not terminate', ''
    o = p.stdout.decode('latin1')
    if p.returncode == 42:
        m = re.search('violated: (.*)', o)
        return m.group(1) if m else 'violated', o
    if p.returncode and h.memory:
        m = re.search(r'ERROR: (.*?)(\(|$)|runtime error: (.*)', o)
        return (m.group(1) or m.group(3)) if m else 'crash %d' % p.returncode, o
    if p.returncode < 0:
        return 'the code crashes (signal %d)' % -p.returncode, o
    return None, o


def decide(arch, h, timeout):
    r = cbmc(arch, h, timeout)
    if 'err' in r or not r['failed']:
        return r
    r['confirmed'] = []
    full = cbmc(arch, h, max(timeout, 240), props=r['names'][:4])
    for d, vals, where in full.get('failed') or r['failed']:
        msg, o = replay(arch, h, vals)
        if msg:
            r['confirmed'].append((d, vals, msg, o))
            break
    if not r['confirmed'] and h.real:
        r2 = cbmc(arch, h, min(timeout, 120), real=True, props=r['names'][:4])
        for d, vals, where in r2.get('failed', []):
            msg, o = replay(arch, h, vals)
            if msg:
                r['confirmed'].append((d, vals, msg, o))
                break
    return r


def harness_part(hs, note, limit=None):
    def part(ctx):
        todo = []
        for h in hs:
            if h.tier == 'quick' or ctx.tier == 'thorough':
                for a in h.archs:
                    todo.append((a, h))
        for a in sorted({a for a, _ in todo}):
            build.arch_tree(a)
        for a, h in todo:
            goto(a, h)
        lim = limit or (150 if ctx.tier == 'quick' else 1500)
        end = time.time() + (300 if ctx.tier == 'quick' else 3000)

        def one(t):
            a, h = t
            left = end - time.time()
            if left < 5:
                return {'err': 'not started before the time limit'}
            try:
                return decide(a, h, min(h.timeout or lim, left))
            except Exception as e:      # never an alarm
                return {'err': 'internal: %r' % e}
        with ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as ex:
            for (a, h), r in zip(todo, ex.map(one, todo)):
                name = '%s/%s' % (h.fn, a)
                if 'err' in r:
                    ctx.inconclusive.append('%s: %s' % (name, r['err'][-300:]))
                    continue
                ctx.functions |= set(h.functions)
                ctx.harnesses.append({'harness': name, 'obligations': r['obligations'], 'discharged': r['discharged'],
                                      'solver_s': r['solver_s'], 'wall_s': r['wall_s'], 'bounds': h.bounds,
                                      'non_vacuous': r['reached'], 'unwind': h.unwind})
                conf = r.get('confirmed')
                if conf:
                    d, vals, msg, o = conf[0]
                    f = next((f for f in ctx.findings if f.get('harness') == h.fn and f.get('message') == msg), None)
                    if f:
                        if f not in ctx.known:
                            ctx.known.append(f)
                            ctx.say('KNOWN-FINDING: property=%s %s' % (ctx.prop, f['what']))
                        continue
                    ctx.violation('%s-%s' % (h.fn, a), '%s (%s): %s' % (h.fn, a, msg), {
                        'inputs.txt': ' '.join(map(str, vals)),
                        'report.txt': 'harness bmc/h_%s.c %s, target %s\nsolver: %s\nreal code: %s\noutput:\n%s\n' % (
                            h.file, h.fn, a, d, msg, o),
                        'replay.sh': '#!/bin/sh\n# in a tree configured for %s: compile the harness with the real sources and run it\n'
                        'cd ${TREE:?a tree with config, src/codegen.c and out/libc.inc}/src && gcc -w -g %s -DBMC_FN=%s %s -I. -I%s %s '
                        '-o /tmp/replay.exe && /tmp/replay.exe $(dirname $(readlink -f $0))/inputs.txt\n' % (
                            a, '-fsanitize=address,undefined' if h.memory else '', h.fn,
                            ' '.join(x for x in common_args(a, h, False) if x.startswith('-D')), HERE,
                            os.path.join(HERE, 'h_%s.c' % h.file))})
                elif r['failed']:
                    ctx.inconclusive.append('%s: a solver counterexample did not reproduce: %s' % (name, r['failed'][0][0]))
                elif r['open']:
                    ctx.inconclusive.append('%s: %s' % (name, r['open'][0]))
                elif not r['reached']:
                    ctx.inconclusive.append('%s: the end of the harness is not reachable' % name)
                elif len(ctx.samples) < 4:
                    ctx.samples.append({'harness': name, 'obligations': r['obligations'], 'solver_s': r['solver_s']})
        ctx.bounds.append(note)
    return part
