"""check one property: runs its program families (engine A) and harnesses (engine B), writes evidence."""
import hashlib
import json
import os
import random
import shutil
import sys
import time
import traceback
from . import build, tv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.violations = []        # (headline, replay dir)
        self.known = []
        self.inconclusive = []      # texts
        self.samples = []
        self.programs = 0           # (program, target) pairs decided
        self.pairs = 0              # of those attempted
        self.compared = 0           # pairs of final states compared
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.insns = 0
        self.undefined = 0
        self.dropped = 0
        self.harnesses = []         # engine B: dicts
        self.functions = set()
        self.bounds = []
        kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
        self.findings = [f for f in kf['findings'] if f['property'] == prop]

    def say(self, s):
        print(s, flush=True)

    # ---- violations
    def replay_dir(self, name):
        d = os.path.join(VERIF, 'evidence', 'replay', '%s-%s' % (self.prop, name))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d

    def violation(self, name, headline, files):
        d = self.replay_dir(name)
        for k, v in files.items():
            with open(os.path.join(d, k), 'wb') as f:
                f.write(v if isinstance(v, bytes) else v.encode('latin1', 'replace'))
        self.violations.append((headline, d))
        if len(self.violations) <= 8:
            self.say('counterexample %s: %s' % (name, headline))
            self.say('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(d, VERIF)))


def jobs_of(progs):
    out = []
    for p in progs:
        o = dict(p[2]) if len(p) > 2 else {}
        archs = o.pop('archs', ('arm', 'riscv'))
        flags = o.pop('flags', ('--no-libc', '+m'))
        o.setdefault('deadline', 8 if TIER == 'quick' else 60)
        if 'prelude' in o:
            o['oracle_prelude'] = o.pop('prelude')
        if 'oracle' in o:
            o['oracle_src'] = o.pop('oracle')
        for a in archs:
            out.append(tv.Job(p[0], p[1], a, flags, **o))
    return out


def src_key(src):
    return hashlib.sha256(src.encode('latin1', 'replace')).hexdigest()[:16]


def program_part(ctx, progs, wall, keep_order=False):
    """engine A on a family of programs"""
    jobs = jobs_of(progs)
    if not keep_order:
        random.Random(SEED).shuffle(jobs)
    known = {}
    for f in ctx.findings:
        for a in f.get('archs', ('arm', 'riscv')):
            if 'program' in f:
                known[(src_key(f['program']), a)] = f
    kjobs = []
    for f in ctx.findings:
        if 'program' in f:
            o = {'flags': tuple(f.get('flags', ('--no-libc', '+m'))), 'archs': tuple(f.get('archs', ('arm', 'riscv')))}
            if 'oracle' in f:
                o['oracle'] = f['oracle']
            kjobs += jobs_of([('known-' + f['id'], f['program'], o)])
    jobs = kjobs + jobs
    n = len(jobs)
    done = 0
    ctx.pairs += n - len(kjobs)
    seen_known = set()
    for r in tv.run_jobs(jobs, os.cpu_count() or 8, wall):
        done += 1
        st = r.stats
        ctx.compared += st.compared
        ctx.paths += st.paths
        ctx.queries += st.queries
        ctx.solver_s += st.solver_s
        ctx.undefined += st.undefined
        ctx.insns += r.insns
        if r.violation:
            kind, detail, inp, exp, got = r.violation
            f = known.get((src_key(r.src), r.arch))
            if f:
                if f['id'] not in seen_known:
                    seen_known.add(f['id'])
                    ctx.known.append(f)
                    ctx.say('KNOWN-FINDING: property=%s %s' % (ctx.prop, f['what']))
                continue
            files = {'program.c': tv.arch_text(r.src, r.arch), 'input.bin': inp,
                     'report.txt': '%s %s flags=%s\nkind: %s\ndetail: %s\ninput: %s\nC prescribes (exit status, output): %s\n'
                     'real executable gave:              %s\n' % (
                         r.name, r.arch, ' '.join(r.flags), kind, detail, inp.hex(),
                         exp and (exp[0], exp[1].hex()), got and (got[0], got[1].hex())),
                     'replay.sh': '#!/bin/sh\n# compile with the compiler of /repo (built for %s) and run\n'
                     'd=$(dirname "$0"); S=${SHECC:-/repo/_build/%s/out/shecc}\n$S %s -o /tmp/replay.elf $d/program.c && '
                     '%s /tmp/replay.elf <$d/input.bin | od -An -tx4; cat $d/report.txt\n' % (
                         r.arch, r.arch, ' '.join(r.flags), tv.QEMU[r.arch])}
            ctx.violation('%s-%s' % (r.name, r.arch), '%s: %s' % (kind, detail), files)
            if len(ctx.violations) >= 3 and ctx.tier == 'quick':
                break
        elif r.inconclusive:
            ctx.inconclusive.append('%s/%s: %s' % (r.name, r.arch, r.inconclusive[-160:]))
        else:
            ctx.programs += 1
            if len(ctx.samples) < 3 and st.compared:
                ctx.samples.append({'program': r.name, 'target': r.arch, 'source': r.src[:1500], 'paths': st.paths,
                                    'final_states_compared': st.compared, 'queries': st.queries,
                                    'target_instructions_executed_symbolically': r.insns})
    ctx.dropped += n - done


def main(prop, spec):
    tier = TIER
    ctx = Ctx(prop, tier)
    try:
        for part in spec['parts']:
            part(ctx)
            if ctx.violations and tier == 'quick':
                break
    except build.BuildError as e:
        print('cannot build the code under test:\n%s' % e)
        return 2
    wall = time.time() - ctx.t0
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': spec['level'], 'wall_s': round(wall, 2),
          'violations': len(ctx.violations), 'assumptions': spec.get('assumptions', [])}
    cov = {'undecided': len(ctx.inconclusive), 'undecided_samples': ctx.inconclusive[:10],
           'not_started_before_the_time_limit': ctx.dropped,
           'known_findings_reproduced': [f['id'] for f in ctx.known],
           'bounds': spec.get('bounds', []) + ctx.bounds, 'functions_encoded': spec.get('functions', []) + sorted(ctx.functions)}
    if ctx.pairs:
        cov.update({'programs': ctx.programs, 'program_target_pairs_attempted': ctx.pairs,
                    'disagreements_checked': ctx.compared, 'paths': ctx.paths, 'samples': ctx.samples,
                    'solver_queries': ctx.queries, 'solver_seconds': round(ctx.solver_s, 2),
                    'target_instructions_executed_symbolically': ctx.insns,
                    'paths_excluded_as_undefined_in_C': ctx.undefined})
    if ctx.harnesses:
        cov['harnesses'] = ctx.harnesses
        cov['obligations'] = sum(h.get('obligations', 0) for h in ctx.harnesses)
        cov['discharged'] = sum(h.get('discharged', 0) for h in ctx.harnesses)
        if not ctx.pairs:
            cov['solver_seconds'] = round(sum(h.get('solver_s', 0) for h in ctx.harnesses), 2)
    if spec['level'] == 'translation_validation':
        cov.setdefault('programs', ctx.programs)
        cov.setdefault('disagreements_checked', ctx.compared)
        cov.setdefault('samples', ctx.samples)
    if spec['level'] == 'other':
        cov['explanation'] = spec['explanation']
    ev['coverage'] = cov
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.json.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))
    print('%s %s: %d program/target pairs decided of %d, %d final states compared, %d paths, %d queries; '
          '%d harness obligations, %d discharged; %d undecided, %d dropped; %d violations; %.1f s' % (
              prop, tier, ctx.programs, ctx.pairs, ctx.compared, ctx.paths, ctx.queries,
              cov.get('obligations', 0), cov.get('discharged', 0), len(ctx.inconclusive), ctx.dropped,
              len(ctx.violations), wall))
    return 1 if ctx.violations else 0
