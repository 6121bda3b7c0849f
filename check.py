#!/usr/bin/env python3
"""check.py PROPERTY [--runs N] [--keep]     decide a property by deterministic simulation of /repo's working tree
   check.py PROPERTY --replay FILE            execute a replay file; exit 1 if the violation recorded in it occurs again
   check.py --build                           build all simulators
Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough)."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SIM = os.path.join(VERIF, 'sim')
WORKERS = 8

# property -> simulator, runs (quick, thorough), level
PROPS = {
    'C01': ('threads', 24000, 500000, 'exploration'),
    'C02': ('hist', 14000, 250000, 'exploration'),
    'C03': ('hist', 14000, 250000, 'fault_enumeration'),
    'C04': ('hist', 8000, 150000, 'fault_enumeration'),
    'C05': ('mission', 160000, 3000000, 'exploration'),
    'C06': ('mission', 140000, 3000000, 'exploration'),
    'C07': ('mission', 140000, 3000000, 'exploration'),
    'C08': ('mission', 26000, 500000, 'exploration'),
    'C09': ('belief', 20000, 400000, 'exploration'),
    'C10': ('belief', 100000, 2000000, 'exploration'),
    'C11': ('node', 8000, 150000, 'exploration'),
    'C12': ('node', 13000, 250000, 'exploration'),
    'C14': ('mission', 250000, 2000000, 'exploration'),
    'C16': ('mission', 100000, 1200000, 'exploration'),
    'C17': ('mission', 120000, 1200000, 'exploration'),
}
DEADLINE = {'quick': 240, 'thorough': 720}
LIB = ['-std=c++17', '-O2', '-DNDEBUG', '-w', '-I%s/include' % REPO, '-I/usr/include/eigen3']
TSAN = ['-std=c++17', '-O1', '-fsanitize=thread', '-DNDEBUG', '-w', '-I%s/include' % REPO, '-I/usr/include/eigen3']
REAL_LIB = 'the whole library (/repo/src/*/*.cpp, /repo/include)'
INFO = {
    'threads': dict(
        real=[REAL_LIB + ', every memory access instrumented'],
        stub=['thread scheduler (coroutines switched at memory accesses by the seeded scheduler)', 'operator new/delete'],
        unit='instrumented memory accesses of all threads',
        rule='A run is 2 to 4 threads with a few queries each on shared and private state spaces; a seeded scheduler decides after which memory '
             'access which thread continues (random, targeted at shared locations, or a single preemption). Non-trivial: at least one answer was '
             'compared with the answer of the same query alone; distinct: by hash of schedule and answers.',
        states='distinct interleavings: hash of the order of all accesses to memory used by more than one thread, and of the queries'),
    'hist': dict(
        real=[REAL_LIB],
        stub=['operator new/delete (counting, failing on request, dirty memory, red zones)', 'initial stack contents'],
        unit='allocations of the library',
        rule='A run is a history of constructions, queries, filter changes, destructions and failing allocations over several state spaces; '
             'each answer is compared with that of a pristine process. Non-trivial: at least one answer or allocation balance was checked; '
             'distinct: by hash of the event log.',
        states='distinct (query, state space, arguments, answer) combinations'),
    'mission': dict(
        real=[REAL_LIB],
        stub=['vehicle (independent kinematics)', 'clock of the executing vehicle', 'operator new/delete'],
        unit='metres driven',
        rule='A run is a mission: goals, interruptions at arbitrary arc length, slip, tow, planner restarts, failing allocations, jittering clock. '
             'Non-trivial: at least one oracle was applied; distinct: by hash of the event log.',
        states='distinct (type, sequence of segment kinds: direction, curvature sign, sharpness sign, at the limit or not) combinations'),
    'belief': dict(
        real=[REAL_LIB],
        stub=['vehicles, sensors and feedback controllers of the fleet (independent kinematics)', 'operator new/delete'],
        unit='metres driven',
        rule='A run is one path with noise, sensor and controller settings, handovers and restarts; C09 drives a fleet of disturbed vehicles along it. '
             'Non-trivial: at least one belief was compared; distinct: by hash of the event log.',
        states='distinct (type, sequence of segment kinds, number of handovers) combinations'),
    'node': dict(
        real=['/repo/src/steering_functions_node.cpp', REAL_LIB],
        stub=['ROS client library, master, parameter server, clock, subscribers (sim/ros, sim/node.cpp)', 'costmap_2d footprint parameters', 'tf'],
        unit='seconds of simulated time',
        rule='A run is one life of the node: parameters, subscribers that come, go and return, clock jumps, stalls, late wake-ups, shutdown. '
             'Non-trivial: at least one display, progress interval or exit was checked; distinct: by hash of the event log.',
        states='distinct (world event, display, subscribed topics, ROS call in progress) combinations'),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


class BuildError(Exception):
    pass


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build(simulators):
    """returns {simulator: binary}; objects are cached by content"""
    os.makedirs(BUILD + '/obj', exist_ok=True)
    srcs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    node_src = REPO + '/src/steering_functions_node.cpp'
    lib = [s for s in srcs if s != node_src]
    hdr = sorted(p for d in ('/include', '/src') for p in glob.glob(REPO + d + '/**/*', recursive=True)
                 if os.path.isfile(p) and not p.endswith('.cpp'))
    simhdr = sorted(glob.glob(SIM + '/**/*.h*', recursive=True))
    jobs = {}

    def obj(src, flags, sim=False):
        key = digest([src] + hdr + (simhdr if sim else []), ' '.join(flags))
        o = BUILD + '/obj/' + os.path.basename(src)[:-4] + '-' + key + '.o'
        jobs[o] = ['g++'] + flags + ['-c', src, '-o', o + '.tmp%d' % os.getpid()]
        return o

    links = {}
    for s in simulators:
        if s == 'threads':
            objs = [obj(f, TSAN) for f in lib] + [obj(SIM + '/spaces.cpp', TSAN, True)]
        else:
            objs = [obj(f, LIB) for f in lib] + [obj(SIM + '/spaces.cpp', LIB, True)]
        objs += [obj(SIM + '/' + f + '.cpp', LIB + ['-I' + SIM, '-I' + SIM + '/ros'], True) for f in ('alloc', 'main', s)]
        if s == 'node':
            objs.append(obj(node_src, LIB + ['-Dmain=node_main', '-I' + SIM + '/ros'], True))
        links[s] = objs

    def compile1(o):
        if os.path.exists(o):
            return None
        r = sh(jobs[o])
        if r.returncode:
            return 'compiling %s failed:\n%s' % (jobs[o][-3], r.stdout[:3000])
        os.rename(jobs[o][-1], o)
        return None
    order = sorted(jobs, key=lambda o: 0 if re.match(r'spaces|threads|mission|belief|hist|node|steering|ekf', os.path.basename(o)) else 1)
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        errs = [e for e in ex.map(compile1, order) if e]
    if errs:
        raise BuildError(errs[0])
    bins = {}
    for s, objs in links.items():
        b = BUILD + '/' + s + '-' + hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16]
        if not os.path.exists(b):
            r = sh(['g++'] + objs + ['-o', b + '.tmp%d' % os.getpid(), '-pthread', '-ldl'])
            if r.returncode:
                raise BuildError('linking %s failed:\n%s' % (s, r.stdout[:3000]))
            os.rename(b + '.tmp%d' % os.getpid(), b)
        bins[s] = b
    return bins


def execute(binary, prop, plan_file, known='', cpu=60):
    env = dict(os.environ, SIM_KNOWN=known, SIM_CPU=str(cpu))
    r = sh([binary, 'exec', prop, plan_file], env=env)
    res = {'cls': 'ERROR', 'detail': r.stdout[-500:], 'hash': '', 'stat': {}}
    for l in r.stdout.splitlines():
        if l.startswith('RESULT '):
            res['cls'] = l[7:].strip()
        elif l.startswith('DETAIL '):
            res['detail'] = l[7:]
        elif l.startswith('HASH '):
            res['hash'] = l[5:].strip()
        elif l.startswith('STAT '):
            k, v = l[5:].rsplit(' ', 1)
            res['stat'][k] = float(v)
    return res


def write_plan(path, lines, head=()):
    with open(path, 'w') as f:
        for h in head:
            f.write('# ' + h.replace('\n', ' ') + '\n')
        f.write('\n'.join(lines) + '\n')


def minimise(binary, prop, lines, cls, known, work, budget):
    """delta debugging over the lines of the plan; the class of the violation is kept"""
    t0 = time.time()
    tmp = work + '/min.plan'
    tries = [0]

    def fails(ls):
        if time.time() - t0 > budget:
            return False
        tries[0] += 1
        write_plan(tmp, ls)
        return execute(binary, prop, tmp, known, 10)['cls'] == cls
    n = 2
    while len(lines) >= 2 and time.time() - t0 < budget:
        size = max(1, len(lines) // n)
        reduced = False
        i = 0
        while i < len(lines):
            cand = lines[:i] + lines[i + size:]
            if cand and fails(cand):
                lines = cand
                n = max(n - 1, 2)
                reduced = True
            else:
                i += size
        if not reduced:
            if size == 1:
                break
            n = min(len(lines), n * 2)
    # shrink arguments: shorter numbers
    for i in range(len(lines)):
        w = lines[i].split(' ')
        for j in range(1, len(w)):
            if not re.fullmatch(r'-?\d+\.\d{4,}(e[-+]?\d+)?', w[j]) or time.time() - t0 > budget:
                continue
            for cand in ('0', '%.1g' % float(w[j]), '%.2g' % float(w[j]), '%.4g' % float(w[j])):
                w2 = w[:j] + [cand] + w[j + 1:]
                if fails(lines[:i] + [' '.join(w2)] + lines[i + 1:]):
                    w = w2
                    lines = lines[:i] + [' '.join(w)] + lines[i + 1:]
                    break
    return lines, tries[0]


def load_findings(prop):
    with open(VERIF + '/known_findings.json') as f:
        d = json.load(f)
    return [k for k in d['known'] if k['property'] == prop]


def main():
    args = sys.argv[1:]
    if args == ['--build']:
        t = time.time()
        build(sorted({v[0] for v in PROPS.values()}))
        print('built in %.1f s' % (time.time() - t))
        return 0
    prop = args[0]
    simname, q_runs, t_runs, level = PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in DEADLINE:
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1')) & 0x7fffffffffffffff
    except ValueError:
        seed = 1
    runs = q_runs if tier == 'quick' else t_runs
    if '--runs' in args:
        runs = int(args[args.index('--runs') + 1])
    t_start = time.time()
    binary = build([simname])[simname]
    t_built = time.time()
    work = '%s/work-%s-%d' % (BUILD, prop, os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        findings = load_findings(prop)
        known = work + '/known'
        with open(known, 'w') as f:
            f.write(''.join(k['class'] + '\n' for k in findings))
        if '--replay' in args:
            return replay(binary, prop, args[args.index('--replay') + 1], known)
        return decide(binary, prop, simname, level, tier, seed, runs, findings, known, work, t_start, t_built)
    finally:
        if '--keep' not in args:
            shutil.rmtree(work, ignore_errors=True)


def replay(binary, prop, path, known):
    want = {}
    for l in open(path):
        m = re.match(r'# (class|hash): (.*)', l)
        if m:
            want[m.group(1)] = m.group(2).strip()
    r = execute(binary, prop, path, known)
    if want.get('class') == 'nondeterministic':
        hs = {r['hash']} | {execute(binary, prop, path, known)['hash'] for _ in range(9)}
        print('%d different outcomes in 10 executions' % len(hs))
        bad = len(hs) > 1
    else:
        print('RESULT %s\nDETAIL %s\nHASH %s (recorded %s: %s)' % (r['cls'], r['detail'], r['hash'], want.get('hash'),
                                                                  'same execution' if r['hash'] == want.get('hash') else 'different execution'))
        bad = r['cls'] not in ('ok', 'ERROR', 'ENV')
    if bad:
        print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(path)))
    return 1 if bad else 0


def decide(binary, prop, simname, level, tier, seed, runs, findings, known, work, t_start, t_built):
    per = (runs + WORKERS - 1) // WORKERS
    env = dict(os.environ, SIM_KNOWN=known, SIM_DEADLINE=str(DEADLINE[tier]), SIM_STOP=work + '/stop')
    if tier == 'quick':
        env['SIM_CPU'] = '30'
    procs = []
    for i in range(WORKERS):
        procs.append(subprocess.Popen([binary, 'batch', prop, str(seed), str(i), str(WORKERS), str(per), '50', '%s/o%d' % (work, i)],
                                      env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    for p in procs:
        p.wait()
    t_run = time.time() - t_built
    tot = {'runs': 0, 'repeats': 0, 'nondet': 0, 'simtime': 0.0}
    stat, states, hashes, bads, samples, nd = {}, set(), set(), [], [], []
    for i in range(WORKERS):
        try:
            with open('%s/o%d' % (work, i)) as f:
                j = json.load(f)
        except (OSError, ValueError) as e:
            print('ERROR: worker %d of %s gave no result: %s' % (i, prop, e))
            return 2
        for k in tot:
            tot[k] += j[k]
        for k, v in j['stat'].items():
            stat[k] = max(stat.get(k, 0), v) if k.startswith('max.') else stat.get(k, 0) + v
        for name, s in (('states', states), ('hashes', hashes)):
            with open('%s/o%d.%s' % (work, i, name), 'rb') as f:
                b = f.read()
            s.update(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
        if j['nondet']:
            nd.append(j['nondet_idx'])
        if 'bad' in j:
            bads.append(j['bad'])
        if j.get('sample') and len(samples) < 2:
            samples.append({'index': i, 'plan': j['sample'].splitlines()})
    # listed findings
    shown = []
    for k in findings:
        pf = work + '/finding.plan'
        write_plan(pf, k['plan'])
        if execute(binary, prop, pf, '', 20)['cls'] == k['class']:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            shown.append(k['class'])
    status, violation = 0, None
    os.makedirs(VERIF + '/replays', exist_ok=True)
    env_trouble = [b for b in bads if b['cls'] == 'ENV']
    bads = sorted((b for b in bads if b['cls'] != 'ENV'), key=lambda b: (b['cls'] == 'hang', b['idx']))
    for b in bads:
        lines = b['plan'].splitlines()
        pf = work + '/bad.plan'
        write_plan(pf, lines)
        first = execute(binary, prop, pf, known, 30)  # fresh process
        if first['cls'] != b['cls']:
            print('NOTE: run %d of seed %d (%s) does not fail again in a fresh process (%s)' % (b['idx'], seed, b['cls'], first['cls']))
            continue
        n0 = len(lines)
        mins, tries = minimise(binary, prop, list(lines), b['cls'], known, work, 15 if b['cls'] == 'hang' else 45)
        write_plan(pf, mins)
        r1, r2 = execute(binary, prop, pf, known, 30), execute(binary, prop, pf, known, 30)
        if r1['cls'] != b['cls'] or r1['hash'] != r2['hash']:
            mins = lines
            write_plan(pf, mins)
            r1 = execute(binary, prop, pf, known, 30)
        out = '%s/replays/%s-%s-s%d-r%d.plan' % (VERIF, prop, re.sub(r'[^A-Za-z0-9_+-]', '_', b['cls'])[:60], seed, b['idx'])
        write_plan(out, mins, ['property: ' + prop, 'seed: %d run: %d' % (seed, b['idx']), 'class: ' + b['cls'], 'detail: ' + r1['detail'],
                               'hash: ' + r1['hash'], 'minimised from %d to %d lines in %d executions' % (n0, len(mins), tries),
                               'replay: python3 /verif/check.py %s --replay %s' % (prop, out)])
        violation = dict(cls=b['cls'], detail=r1['detail'], seed=seed, run=b['idx'], replay=out, plan=mins, lines_before=n0)
        print('%s: %s' % (b['cls'], r1['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, out))
        status = 1
        break
    if not status and nd and prop in ('C01', 'C02'):
        # the same history in the same memory had two outcomes
        for idx in nd:
            pf = work + '/nd.plan'
            lines = sh([binary, 'gen', prop, str(seed), str(idx)]).stdout.splitlines()
            write_plan(pf, lines)
            hs = {execute(binary, prop, pf, known)['hash'] for _ in range(10)}
            if len(hs) > 1:
                out = '%s/replays/%s-nondeterministic-s%d-r%d.plan' % (VERIF, prop, seed, idx)
                write_plan(out, lines, ['property: ' + prop, 'class: nondeterministic', 'seed: %d run: %d' % (seed, idx)])
                violation = dict(cls='nondeterministic', detail='%d outcomes' % len(hs), seed=seed, run=idx, replay=out, plan=lines)
                print('nondeterministic: the same history of calls has %d different outcomes in 10 executions' % len(hs))
                print('VIOLATION property=%s replay=%s' % (prop, out))
                status = 1
                break
    if not status and (bads or env_trouble):
        print('ERROR: %d runs ended badly but not reproducibly' % (len(bads) + len(env_trouble)))
        status = 2
    info = INFO[simname]
    wall = time.time() - t_start
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(wall, 2), 'violations': 1 if status == 1 else 0,
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(hashes),
            'rule': info['rule'],
            'samples': samples + ([violation] if violation else []),
            'runs_per_hour': int(tot['runs'] / max(t_run, 1e-3) * 3600),
            'seeds_per_hour': int(tot['runs'] / max(t_run, 1e-3) * 3600),
            'seed_rule': 'every run has its own seed, derived from VERIF_SEED, the property and the run index',
            'simulated': {'amount': round(tot['simtime'], 3), 'unit': info['unit']},
            'faults_injected': {k[6:]: int(v) for k, v in sorted(stat.items()) if k.startswith('fault.')},
            'operations': {k[3:]: int(v) for k, v in sorted(stat.items()) if k.startswith('op.')},
            'oracle_applications': {k[6:]: int(v) for k, v in sorted(stat.items()) if k.startswith('check.')},
            'probes': {k[6:]: int(v) for k, v in sorted(stat.items()) if k.startswith('probe.')},
            'largest_deviations_accepted': {k[4:]: v for k, v in sorted(stat.items()) if k.startswith('max.')},
            'known_findings_met_in_runs': {k[6:]: int(v) for k, v in sorted(stat.items()) if k.startswith('known.')},
            'known_findings_reproduced': shown,
            'distinct_states': len(states), 'distinct_states_measure': info['states'],
            'runs_executed_twice': tot['repeats'], 'runs_that_differed': tot['nondet'],
            'components_real': info['real'], 'components_stub': info['stub'],
            'build_s': round(t_built - t_start, 2), 'run_s': round(t_run, 2), 'workers': WORKERS,
        },
        'assumptions': ASSUME[simname],
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    tmp = '%s/evidence/%s.json.%d' % (VERIF, prop, os.getpid())
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.rename(tmp, '%s/evidence/%s.json' % (VERIF, prop))
    print('%s: %d runs (%d distinct), %d states, %.1f s build, %.1f s simulation: %s' %
          (prop, tot['runs'], len(hashes), len(states), t_built - t_start, t_run,
           {0: 'held on everything explored', 1: 'VIOLATED', 2: 'no answer'}[status]))
    return status


COMMON = ['seeded search: a clean batch is evidence over the runs executed, not proof', 'x86-64, g++, -O2, no extended precision']
ASSUME = {
    'threads': COMMON + ['sequentially consistent interleavings of memory accesses at -O1 (no weak-memory effects); libm and libstdc++ internals are atomic steps'],
    'hist': COMMON + ['memory is acquired through operator new/delete only'],
    'mission': COMMON + ['limits: curvature 0.1 to 5, sharpness 0.02 to 20, deflection of a clothoid 0.03 to 10 rad; goals within about ten turning radii of the origin; tolerances as in DESIGN.md'],
    'belief': COMMON + ['small noise: statistics are exact to first order in the noise; steering errors on straights may act over or at the end of a step'],
    'node': COMMON + ['ROS client library behaves as the stand-in in sim/ros (system time, sleeps not shortened except by shutdown)'],
}

if __name__ == '__main__':
    try:
        sys.exit(main())
    except BuildError as e:
        print('ERROR: ' + str(e))
        sys.exit(2)
