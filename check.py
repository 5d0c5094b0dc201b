#!/usr/bin/env python3
"""Checks one property of funcmap by deterministic simulation.

  check.py PROPERTY [--tier quick|thorough]    explore; exit 0 held, 1 violated, 2 the check itself failed
  check.py --replay FILE                       reproduce a reported violation; exit 1 if it happens
"""
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('FUNCMAP_REPO', '/repo')
SIM = os.path.join(HERE, 'sim')
TARGET = os.path.join(HERE, 'target')
REPLAYS = os.path.join(HERE, 'replays')
sys.path.insert(0, os.path.join(HERE, 'tools'))
import gentypes  # noqa: E402

CORES = os.cpu_count() or 8
TOOLCHAIN = '1.87.0'
MODES = {'C06': 'isolation', 'C08': 'twin', 'C09': 'laws', 'C12': 'config', 'C15': 'nondet', 'C16': 'cost'}
SIM_PROPS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15', 'C16']
HANG_S = 25


class HarnessError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def note(*a):
    print('#', *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- builds

class Types:
    """the generated type definitions of this check"""

    def __init__(self, seed, count, exclude=()):
        self.seed, self.count, self.exclude = seed, count, sorted(exclude)
        d = os.path.join(TARGET, 'types')
        os.makedirs(d, exist_ok=True)
        self.path = os.path.join(d, f't{seed}-{count}.rs')
        self.write()

    def write(self):
        self.defs, self.left_out = gentypes.write(self.seed, self.count, self.path, self.exclude)

    def name_at(self, line):
        """the type whose module contains a line of the generated file"""
        name = None
        for i, l in enumerate(open(self.path), 1):
            m = re.match(r'pub mod m_(\w+) \{', l) or re.match(r'pub fn comm_(\w+)_\d+_\d+\(', l)
            if m:
                name = m.group(1)
            elif l.startswith('}'):
                if i >= line:
                    return name
                name = None
            if i >= line:
                return name
        return None

    def text_of(self, low):
        d = next(d for d in self.defs if d.name.lower() == low)
        return d.name, gentypes.standalone(self.defs, d.name)


CONFIGS = {
    'std-debug': ('std', 'dev'), 'alloc-debug': ('alloc', 'dev'), 'core-debug': ('', 'dev'),
    'std-release': ('std', 'release'), 'alloc-release': ('alloc', 'release'), 'core-release': ('', 'release'),
    'std-edges': ('std', 'plain'),  # every basic block of the library is a point of preemption
    'std-plain': ('std', 'plain'), 'alloc-plain': ('alloc', 'plain'), 'core-plain': ('', 'plain'),  # no debug assertions, but quick to build
}
PROFILE_DIR = {'dev': 'debug'}


def cargo_env(types, config):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') or k.startswith('RUST'):
            if k not in ('CARGO_HOME', 'RUSTUP_HOME'):
                del e[k]
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTC_BOOTSTRAP='funcmap_sim,funcmap_macrosim', SIM_TYPES=types.path if types else '',
             CARGO_TARGET_DIR=os.path.join(TARGET, config), CARGO_NET_OFFLINE='true')
    if config.endswith('-edges'):
        e['RUSTC_WRAPPER'] = os.path.join(HERE, 'tools', 'rustc_edges.sh')
    return e


def fresh(config, crates):
    """forgets what was built from other contents of /repo, whatever its time stamps say"""
    h = hashlib.sha256()
    for base in ('funcmap', 'funcmap_derive'):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                if f.endswith(('.rs', '.toml')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    d = os.path.join(TARGET, config)
    stamp = os.path.join(d, 'repo.hash')
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h.hexdigest():
        if old is not None:
            for prof in ('debug', 'release', 'plain'):
                fp = os.path.join(d, prof, '.fingerprint')
                for x in os.listdir(fp) if os.path.isdir(fp) else []:
                    if any(x.startswith(c + '-') for c in crates):
                        shutil.rmtree(os.path.join(fp, x))
        os.makedirs(d, exist_ok=True)
        open(stamp, 'w').write(h.hexdigest())


def cargo_start(types, config):
    fresh(config, ('funcmap', 'funcmap_derive', 'funcmap_sim'))
    feats, profile = CONFIGS[config]
    cmd = ['cargo', 'build', '--offline', '--locked', '--message-format=json', '--features', feats] + ['--profile', profile]
    jobs = {'jobs': CORES}
    cmd += ['-j', str(jobs['jobs'])]
    return subprocess.Popen(cmd, cwd=SIM, env=dict(cargo_env(types, config), **({'SIM_PLAIN': '1'} if profile == 'plain' else {})), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def cargo_errors(p):
    """the errors of a build, one per line, located where the macros they come from are used"""
    out, err = p.communicate()
    lines = []
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error':
            continue
        m = m['message']
        at = []
        for s in sorted(m['spans'], key=lambda s: not s['is_primary']):
            while s:
                at.append(f"{s['file_name']}:{s['line_start']}:{s['column_start']}")
                s = (s.get('expansion') or {}).get('span')
        for x in at or ['?:0:0']:
            lines.append(f"{x}: error: {m['message']}".replace('\n', ' '))
    return '\n'.join(lines + err.splitlines())


class BuildFailure(Exception):
    def __init__(self, config, err):
        self.config, self.err = config, err


def binary(config):
    return os.path.join(TARGET, config, PROFILE_DIR.get(CONFIGS[config][1], CONFIGS[config][1]), 'funcmap_sim')


def build(types, configs):
    """builds the simulator in several configurations; returns definitions the library no longer accepts"""
    culprits = {}
    for _ in range(8):
        ps = {c: cargo_start(types, c) for c in configs}
        errs = {c: cargo_errors(p) for c, p in ps.items()}
        bad = {c: errs[c] for c, p in ps.items() if p.returncode != 0}
        if not bad:
            return culprits
        new = {}
        for c, e in bad.items():
            for l in e.splitlines():
                m = re.match(r'(.*?):(\d+):\d+: error(.*)', l)
                if m and os.path.abspath(os.path.join(SIM, m.group(1))) == types.path:
                    low = types.name_at(int(m.group(2)))
                    if low:
                        new.setdefault(low, (c, l))
        if not new:
            c, e = next(iter(bad.items()))
            raise BuildFailure(c, e)
        for low, (c, l) in new.items():
            name, text = types.text_of(low)
            culprits[name] = (c, l, text)
            types.exclude.append(name)
        types.write()
    raise BuildFailure(configs[0], 'types do not compile: ' + ', '.join(culprits))


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r'KNOWN-FINDING: property=(\S+) class=(\S+) where=(\S+) message="([^"]*)" (.*)', l)
        if m and m.group(1) == prop:
            out.append({'class': m.group(2), 'fam': m.group(3), 'msg': m.group(4), 'text': m.group(5)})
    return out


# ---------------------------------------------------------------- running

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_env():
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG')}
    return e


class Worker:
    def __init__(self, config, args, out):
        self.config, self.args, self.out = config, args, out
        for x in ('.prog', '.log', '.sigs', '.inter'):
            if os.path.exists(out + x):
                os.unlink(out + x)
        self.log = open(out + '.log', 'w')
        self.err = open(out + '.err', 'w')
        self.p = subprocess.Popen([binary(config)] + args + ['--out=' + out], stdout=self.log, stderr=self.err, env=run_env(),
                                  preexec_fn=limits, cwd=TARGET)
        self.seen, self.seen_t, self.hung = None, time.time(), False

    def poll(self):
        rc = self.p.poll()
        if rc is None:
            s = self.seed()
            now = time.time()
            if s != self.seen:
                self.seen, self.seen_t = s, now
            elif now - self.seen_t > HANG_S:
                self.hung = True
                self.p.kill()
                rc = self.p.wait()
        return rc

    def seed(self):
        try:
            b = open(self.out + '.prog', 'rb').read()
            return struct.unpack('<Q', b)[0] if len(b) == 8 else None
        except OSError:
            return None

    def lines(self):
        return open(self.out + '.log', errors='replace').read().splitlines()

    def errors(self):
        return open(self.out + '.err', errors='replace').read()


class Found:
    """a violation seen by a worker"""

    def __init__(self, prop, mode, config, seed, klass, fam, msg, seed0, step, tier=2):
        self.__dict__.update(locals())


def run_workers(prop, mode, config, secs, seed0, tag, known, workers=CORES, tier=2, extra=()):
    """a batch of seeds under one mode; returns (violations, statistics, known hits)"""
    stop = os.path.join(TARGET, 'runs', f'run-{tag}.stop')
    if os.path.exists(stop):
        os.unlink(stop)
    kf = os.path.join(TARGET, 'runs', f'run-{tag}.known')
    open(kf, 'w').write(''.join(f"{k['class']}\t{k['fam']}\t{k['msg']}\n" for k in known))
    ws = []
    # workers that run every seed in a fresh process; the others let runs follow each other in one process
    apart = range(workers // 2) if mode in ('poison', 'nondet', 'isolation') else range(1)
    for i in range(workers):
        args = ['run', f'--focus={prop}', f'--mode={mode}', f'--tier={tier}', f'--seed0={seed0 + i}', f'--step={workers}', f'--time={secs}',
                '--max-viols=6', f'--stop={stop}', f'--known={kf}', f'--fork={int(i in apart)}', *extra]
        ws.append(Worker(config, args, os.path.join(TARGET, 'runs', f'run-{tag}-{i}')))
    t0, grace = time.time(), None
    live = set(range(workers))
    dead = []
    while live:
        time.sleep(0.05)
        for i in list(live):
            rc = ws[i].poll()
            if rc is not None:
                live.discard(i)
                if rc != 0:
                    dead.append(i)
        if grace is None and (dead or any('\nV ' in '\n' + open(w.out + '.log', errors='replace').read() for w in ws)):
            grace = time.time() + 2.5
        if grace is not None and time.time() > grace and not os.path.exists(stop):
            open(stop, 'w').close()
        if time.time() - t0 > secs + 120:
            for i in live:
                ws[i].p.kill()
            raise HarnessError('workers did not stop')
    found, stats, hits = [], [], {}
    for i, w in enumerate(ws):
        for l in w.lines():
            if l.startswith('V '):
                _, s, k, f, m = (l.split(' ', 4) + [''])[:5]
                found.append(Found(prop, mode, config, int(s), k, f, m, seed0 + i, workers, tier))
            elif l.startswith('K '):
                _, n, s, m = l.split(' ', 3)
                hits.setdefault(int(n), (int(s), m))
            elif l.startswith('S '):
                stats.append(json.loads(l[2:]))
        if 'harness' in w.errors():
            note('worker said:', w.errors()[:600])
    for i in dead:
        w = ws[i]
        s = w.seed()
        if s is None:
            raise HarnessError(f'worker did not start: {w.errors()[:500]}')
        why = 'did not finish' if w.hung else f'process ended with status {w.p.returncode}: {w.errors()[:300]!r}'
        found.append(Found(prop, mode, config, s, 'HANG' if w.hung else 'CRASH', '', why, seed0 + i, workers, tier))
    return found, stats, hits


def head(f, types):
    return {'property': f.prop, 'mode': f.mode, 'class': f.klass, 'fam': f.fam or '-', 'tier': f.tier, 'seed': f.seed, 'from': f.seed, 'step': f.step,
            'build': f.config, 'types': f'{types.seed} {types.count} {",".join(types.exclude)}'.strip()}


def write_replay(path, hd, notes=(), tapes=None):
    with open(path, 'w') as o:
        for n in notes:
            o.write('# ' + n.replace('\n', ' ') + '\n')
        for k, v in hd.items():
            if not (k == 'fam' and v == '-'):
                o.write(f'{k} {v}\n')
        if tapes is not None:
            o.write('tapes\n')
            for s, vs in tapes.items():
                o.write(f'tape {s} {" ".join(map(str, vs))}\n')


def replay_once(config, path, log=None, timeout=HANG_S * 4, extra=()):
    """-> 'V', 'CRASH', 'HANG' or None, with the output"""
    e = run_env()
    if log:
        e['SIM_TAPE_LOG'] = log
    try:
        r = subprocess.run([binary(config), 'replay', path, *extra], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout,
                           preexec_fn=limits, text=True, errors='replace', cwd=TARGET)
    except subprocess.TimeoutExpired:
        return 'HANG', ''
    if r.returncode == 1:
        return 'V', r.stdout
    if r.returncode == 0:
        return None, r.stdout
    return 'CRASH', r.stdout + r.stderr


def confirm(f, types, n, minimise=True):
    """reproduces a violation in a fresh process, minimises it, writes the replay file and returns its path"""
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f'{f.prop}-{n}.replay')
    raw = path + '.raw'
    hd = head(f, types)
    want = {'CRASH': 'CRASH', 'HANG': 'HANG'}.get(f.klass, 'V')
    lim = HANG_S * (1 if want == 'HANG' else 4)
    notes = [f'{f.klass} {f.fam} {f.msg}']
    ok = False
    for back in (0, 1, 8, 64, 512, None):
        start = f.seed0 if back is None else max(f.seed0, f.seed - back * f.step)
        hd['from'] = start
        write_replay(raw, hd, notes)
        if replay_once(f.config, raw, timeout=lim)[0] == want:
            ok = True
            break
    if not ok:
        notes.append('NOT REPRODUCED in a fresh process')
        write_replay(path, hd, notes)
        os.unlink(raw)
        return path, False
    if hd['from'] == f.seed and minimise:
        sub = []
        if want != 'V':
            tl = raw + '.tape'
            if os.path.exists(tl):
                os.unlink(tl)
            replay_once(f.config, raw, log=tl, timeout=lim)
            tapes = {}
            for l in open(tl, errors='replace') if os.path.exists(tl) else []:
                x = l.split()
                if len(x) == 2:
                    tapes.setdefault(int(x[0]), []).append(int(x[1]))
            if os.path.exists(tl):
                os.unlink(tl)
            write_replay(raw, hd, notes, tapes)
            if replay_once(f.config, raw, timeout=lim)[0] != want:
                write_replay(path, hd, notes)
                os.unlink(raw)
                return path, True
            sub = ['--sub=1']
        try:
            subprocess.run([binary(f.config), 'shrink', raw, path, '--time=15', *sub], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=90, env=run_env(), cwd=TARGET)
        except subprocess.TimeoutExpired:
            pass
        if os.path.exists(path) and replay_once(f.config, path, timeout=lim)[0] == want:
            os.unlink(raw)
            if want == 'V':
                r = replay_once(f.config, path, extra=['--log=1'])[1]
                with open(path, 'a') as o:
                    o.write('# what happens:\n' + ''.join('# ' + l[:2000] + '\n' for l in r.splitlines()))
            return path, True
    os.replace(raw, path)
    return path, True


# ---------------------------------------------------------------- evidence

def popcount_union(paths):
    acc = 0
    for p in paths:
        try:
            acc |= int.from_bytes(open(p, 'rb').read(), 'little')
        except OSError:
            pass
    return acc.bit_count()


def add_stats(stats):
    t = {}
    for s in stats:
        for k, v in s.items():
            if k == 'deepest':
                t[k] = max(t.get(k, 0), v)
            elif isinstance(v, (int, float)) and k not in ('last_seed', 'types', 'families', 'secs'):
                t[k] = t.get(k, 0) + v
            elif k == 'faults':
                f = t.setdefault('faults', {})
                for n, c in v.items():
                    f[n] = f.get(n, 0) + c
    return t


RULE = ('One evaluation is one simulated run: a seed decides the program of mapping calls (types, values, closures), the fault plan, '
        'hash seeds, addresses and, where threads are used, every switch between them. A call is non-trivial for this count by its signature: '
        'family of type, method, shape of the input (structure and element keys), injected faults and outcome; distinct signatures are counted '
        'in a 2^24-bit bitmap (an undercount). Runs in which the environment was called back at most six times are counted separately.')

ASSUME = [
    'rustc, core, alloc and std run as they are: their containers are part of what is run, not of what is checked',
    'a violation needs one of the simulated types, values and fault plans to show itself: the search samples, it does not enumerate',
    'the reference model (sim/core/src/node.rs) states what the documentation promises',
]


def write_evidence(prop, tier, seed, cov, wall, violations, assumptions=ASSUME):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': assumptions,
         'wall_s': round(wall, 2), 'violations': violations}
    p = os.path.join(HERE, 'evidence', prop + '.json')
    open(p + '.tmp', 'w').write(json.dumps(e, indent=1) + '\n')
    os.replace(p + '.tmp', p)


def coverage(prop, stats, sigs, inter, extra):
    t = add_stats(stats)
    secs = max([s['secs'] for s in stats] + [0.001])
    n = t.get('runs', 0)
    samples = [x for s in stats for x in s.get('samples', [])][:6]
    cov = {
        'evaluations': n,
        'distinct_nontrivial': popcount_union(sigs),
        'rule': RULE,
        'samples': samples or ['(none)'],
        'runs_with_more_than_six_callbacks': t.get('nontrivial', 0),
        'seeds': n,
        'runs_per_hour': int(n / max(sum(s['secs'] for s in stats) / max(len(stats), 1), 0.001) * 3600 / max(1, len(stats)) * min(len(stats), CORES)),
        'simulated_time': {'mapping_calls': t.get('ops', 0), 'environment_callbacks': t.get('events', 0), 'thread_switches': t.get('switches', 0),
                           'note': 'the library has no clock; simulated time is counted in steps'},
        'outcomes': {'ok': t.get('ok', 0), 'error': t.get('err', 0), 'panic': t.get('panic', 0)},
        'faults_injected': t.get('faults', {}),
        'nested_calls': t.get('nested', 0),
        'deepest_nesting': t.get('deepest', 0),
        'multi_thread_runs': t.get('multi_thread_runs', 0),
        'distinct_interleavings': popcount_union(inter),
        'families_of_types': max([s['families'] for s in stats] + [0]),
        'derived_types': max([s['types'] for s in stats] + [0]),
        'builds': sorted({s['build'] for s in stats}),
        'real_components': ['funcmap (all of src/)', 'funcmap_derive (macro expansion by rustc)', 'core, alloc and std containers'],
        'stubbed_components': ['global allocator (simulated heap over the system one)', 'thread scheduling (baton scheduler)',
                               'getrandom (hash seeds)', 'futex waits, clocks, pauses, environment variables and process number as library code sees them', "the user's closures and element types (instrumented tokens)"],
    }
    if prop == 'C13':
        cov['simulated_time'] = {'macro_expansions': t.get('ops', 0), 'basic_blocks_and_allocations': t.get('events', 0), 'thread_switches': t.get('switches', 0),
                                 'note': 'simulated time is counted in steps'}
        cov['inputs'] = cov.pop('derived_types')
        cov['runs_with_more_than_one_expansion'] = cov.pop('runs_with_more_than_six_callbacks')
        for k in ('families_of_types', 'nested_calls', 'deepest_nesting', 'outcomes'):
            cov.pop(k)
    cov.update(extra)
    return cov


# ---------------------------------------------------------------- checks

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.stats, self.sigs, self.inter = [], [], []
        self.known = known_findings(prop)
        self.hits, self.reported, self.extra = {}, 0, {}
        self.keys = set()
        self.unreproduced = 0

    def violation(self, path):
        self.reported += 1
        say(f'VIOLATION property={self.prop} replay={path}')

    def take(self, res, types, tag, workers=CORES):
        found, stats, hits = res
        self.stats += stats
        for k, v in hits.items():
            self.hits.setdefault(k, v)
        for i in range(workers):
            b = os.path.join(TARGET, 'runs', f'run-{tag}-{i}')
            self.sigs.append(b + '.sigs')
            self.inter.append(b + '.inter')
        found.sort(key=lambda f: f.seed)
        flaky = []
        for f in found:
            key = (f.klass, f.fam)
            if key in self.keys or self.reported >= 3:
                continue
            path, ok = confirm(f, types, self.reported, minimise=self.reported < 2)
            if not ok:
                flaky.append((f, path))
                continue
            self.keys.add(key)
            note(f'{f.klass} {f.fam} seed {f.seed}: {f.msg}')
            self.violation(path)
        if flaky and not self.reported:
            f, path = flaky[0]
            self.unreproduced += len(flaky)
            note(f'{f.klass} {f.fam} seed {f.seed}: {f.msg} (seen while exploring; replays by repeating the worker\'s seeds)')
            self.violation(path)

    def not_compiling(self, culprits):
        if self.prop not in ('C03', 'C05', 'C12'):
            for n, (c, l, _) in culprits.items():
                note(f'left out: {n} does not compile ({l})')
            return
        if self.prop == 'C12':
            return
        for n, (c, l, text) in list(culprits.items())[:3]:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f'{self.prop}-type-{n}.replay')
            with open(path, 'w') as o:
                if self.prop == 'C05':
                    o.write(f'# the mappings exist, but not over the parameters their numbers stand for: {l}\n')
                else:
                    o.write(f'# a definition the documentation supports has no usable mapping: {l}\n')
                o.write(f'property {self.prop}\nclass {"NUMBER" if self.prop == "C05" else "COMPILE"}\nbuild {c}\n')
                o.write(sources(text))
            if replay_compile(path):
                self.violation(path)
            else:
                os.remove(path)
                note(f'{n} is left out: {l}')

    def self_check(self, config, mode):
        """one seed is one execution: the same seeds twice must give the same history"""
        a = []
        for _ in range(2):
            try:
                r = subprocess.run([binary(config), 'run', f'--focus={self.prop}', f'--mode={mode}', f'--seed0={self.seed * 1000 + 7}', '--count=150',
                                    '--loghash=1', '--max-viols=1000000'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=run_env(), text=True,
                                   timeout=HANG_S, preexec_fn=limits)
            except subprocess.TimeoutExpired:
                a = [None, None]  # a run that hangs is for the exploration to find
                break
            s = [json.loads(l[2:]) for l in r.stdout.splitlines() if l.startswith('S ')]
            a.append(s[0]['hist'] if s else None)
        self.extra.setdefault('determinism_self_check', []).append({'build': config, 'mode': mode, 'seeds': 150, 'history_hashes': a, 'equal': a[0] == a[1]})

    def finish(self):
        for i, k in enumerate(self.known):
            if i in self.hits:
                say(f"KNOWN-FINDING: property={self.prop} {k['text']} (seed {self.hits[i][0]}: {self.hits[i][1][:200]})")
            else:
                note(f"known finding not met in this run: {k['text']}")
        self.extra['known_findings_met'] = len(self.hits)
        cov = coverage(self.prop, self.stats, self.sigs, self.inter, self.extra)
        write_evidence(self.prop, self.tier, self.seed, cov, time.time() - self.t0, self.reported)
        note(f"{self.prop}: {cov['evaluations']} runs, {cov['distinct_nontrivial']} distinct, {self.reported} violations, {time.time() - self.t0:.1f} s")
        return 1 if self.reported else 0


def seed_base(seed):
    return (seed % (1 << 24)) << 36


def standard(c):
    """explores the property's mode(s) on one or more builds"""
    prop = c.prop
    quick = c.tier == 'quick'
    modes = {'C07': [('poison', 0.5), ('direct', 0.5)]}.get(prop, [(MODES.get(prop, 'direct'), 1.0)])
    more = ['core-debug'] if prop == 'C14' else []
    # where several callers run at once, the second build is the one that can be preempted anywhere
    second = 'std-edges' if any(m in ('direct', 'isolation') for m, _ in modes) else 'std-plain'
    rounds = [(c.seed, 90, ['std-debug', second] + more)]
    secs = 36.0
    if not quick:
        rounds = [(c.seed + 1000 * i, 150, ['std-debug', second, 'std-release'] + more + (['alloc-debug'] if prop == 'C14' else [])) for i in range(3)]
        secs = 110.0
    for r, (ts, count, configs) in enumerate(rounds):
        types = Types(ts, count)
        try:
            culprits = build(types, configs)
        except BuildFailure as b:
            if b.config == configs[0]:
                raise
            note(f'{b.config} does not build (C12 reports that); the others are explored')
            configs = [x for x in configs if x != b.config]
            culprits = build(types, configs)
        c.not_compiling(culprits)
        for k, cfg in enumerate(configs):
            for m, (mode, share) in enumerate(modes):
                tag = f'{prop}-{r}-{k}-{m}'
                if r == 0:
                    c.self_check(cfg, mode)
                res = run_workers(prop, mode, cfg, secs * share * (part(prop, cfg, configs) if quick else 1), seed_base(c.seed + r) + (k << 34) + (m << 33), tag, c.known)
                c.take(res, types, tag)
                if c.reported and quick:
                    return


def part(prop, config, configs):
    w = lambda x: 1 if x in ('std-plain', 'std-edges') and prop != 'C06' else 3
    return w(config) / sum(w(x) for x in configs)


def digest_workers(c, config, tier, total, seed0, types):
    """semantic digests of `total` seeds in blocks, on several workers"""
    per = total // CORES
    ws = []
    for i in range(CORES):
        ws.append(Worker(config, ['digest', f'--tier={tier}', f'--seed0={seed0 + i * per}', f'--count={per}', '--block=50'],
                         os.path.join(TARGET, 'runs', f'run-C12-{config}-{tier}-{i}')))
    d, crash = {}, []
    live = set(range(CORES))
    while live:
        time.sleep(0.02)
        for i in list(live):
            rc = ws[i].poll()
            if rc is not None:
                live.discard(i)
                if rc != 0:
                    crash.append((ws[i].seed(), 'HANG' if ws[i].hung else 'CRASH', ws[i].errors()[:300]))
    for w in ws:
        for l in w.lines():
            if l.startswith('D '):
                _, s, x = l.split()
                d[int(s)] = x
            elif l.startswith('S '):
                c.stats.append(json.loads(l[2:]))
        c.sigs.append(w.out + '.sigs')
    return d, crash


def digest_of(config, path):
    k, out = replay_once(config, path)
    if k in ('CRASH', 'HANG'):
        return k
    return next((l[2:] for l in out.splitlines() if l.startswith('D ')), 'none')


def py_shrink(tapes, test, secs):
    """removes and lowers choices while `test` holds"""
    end = time.time() + secs
    best = {k: list(v) for k, v in tapes.items()}
    again = True
    while again and time.time() < end:
        again = False
        for k in sorted(best):
            n = len(best[k])
            while n > 0 and time.time() < end:
                i, hit = 0, False
                while i < len(best[k]) and time.time() < end:
                    v = best[k]
                    cands = [v[:i] + v[i + n:]]
                    if any(v[i:i + n]):
                        cands.append(v[:i] + [0] * len(v[i:i + n]) + v[i + n:])
                        if n == 1 and v[i] > 1:
                            cands += [v[:i] + [v[i] // 2] + v[i + 1:], v[:i] + [v[i] - 1] + v[i + 1:]]
                    for x in cands:
                        t = dict(best)
                        t[k] = x
                        if test(t):
                            best, hit = t, True
                            break
                    else:
                        i += n
                again |= hit
                if not hit:
                    n //= 2
    return best


def config_check(c):
    """the same seeds in every build: the semantic history must be the same"""
    quick = c.tier == 'quick'
    rounds = [(c.seed, 45, ['std-debug', 'std-release', 'alloc-debug', 'alloc-plain', 'core-debug', 'core-plain'])]
    if not quick:
        rounds = [(c.seed + 1000 * i, 90, [x for x in CONFIGS if x != 'std-edges']) for i in range(3)]
    level = {'core': 0, 'alloc': 1, 'std': 2}
    compared = 0
    for r, (ts, count, configs) in enumerate(rounds):
        types = Types(ts, count)
        culprits = {}
        try:
            culprits = build(types, configs)
        except BuildFailure as b:
            bad_config(c, types, configs, b)
            return
        for n, (cfg, l, text) in list(culprits.items()):
            # not accepted in this configuration: a difference if it is accepted in another one
            verdict = {}
            os.makedirs(REPLAYS, exist_ok=True)
            for x in configs:
                p = os.path.join(REPLAYS, f'C12-type-{n}-{x}.replay')
                with open(p, 'w') as o:
                    o.write(f'# {l}\nproperty C12\nclass COMPILE\nbuild {x}\n')
                    o.write(sources(text))
                if level[x.split('-')[0]] >= next(d.tier for d in types.defs if d.name == n):
                    verdict[x] = (replay_compile(p), p)
            if len({v for v, _ in verdict.values()}) > 1 and c.reported < 2:
                c.violation(next(p for v, p in verdict.values() if v))
        for tier in (0, 1, 2):
            cs = [x for x in configs if level[x.split('-')[0]] >= tier]
            total = (24000, 16000, 12000)[tier] if quick else (400000, 300000, 300000)[tier]
            total -= total % (CORES * 50)
            seed0 = seed_base(c.seed + r) + (tier << 34)
            res = {x: digest_workers(c, x, tier, total, seed0, types) for x in cs}
            base = cs[0]
            for x in cs[1:]:
                da, db = res[base][0], res[x][0]
                crashes = [s for s in res[base][1] + res[x][1] if s[0] is not None]
                diff = sorted(s for s in set(da) | set(db) if s in da and s in db and da[s] != db[s])
                compared += len(set(da) & set(db)) * 50
                cand = [s + j for s in diff[:1] for j in range(50)] + [s[0] for s in crashes[:2]]
                for s in cand:
                    if c.reported >= 2:
                        break
                    if config_violation(c, types, tier, s, base, x):
                        break
        if c.reported and quick:
            break
    c.extra['run_pairs_compared'] = compared


def config_violation(c, types, tier, seed, a, b):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f'C12-{c.reported}.replay')
    f = Found('C12', 'config', a, seed, 'CONFIG', '', '', seed, 1, tier)
    hd = head(f, types)
    hd['build'] = f'{a} {b}'
    write_replay(path, hd)
    da, db = digest_of(a, path), digest_of(b, path)
    if da == db:
        os.unlink(path)
        return False
    notes = [f'{a} and {b} behave differently ({da} / {db})']
    rec = path + '.rec'
    for x in (a, b):
        replay_once(x, path, extra=['--tapes-out=' + rec])
        if os.path.exists(rec):
            break
    if os.path.exists(rec):
        tapes = {}
        for l in open(rec):
            if l.startswith('tape '):
                v = list(map(int, l.split()[1:]))
                tapes[v[0]] = v[1:]
        os.unlink(rec)
        tmp = path + '.try'

        def test(t):
            write_replay(tmp, hd, (), t)
            return digest_of(a, tmp) != digest_of(b, tmp)
        if test(tapes):
            best = py_shrink(tapes, test, 20)
            write_replay(path, hd, notes, best)
            for x in (a, b):
                o = replay_once(x, path, extra=['--log=1'])[1]
                with open(path, 'a') as fo:
                    fo.write(f'# {x}:\n' + ''.join('# ' + l[:1500] + '\n' for l in o.splitlines()))
        if os.path.exists(tmp):
            os.unlink(tmp)
    c.violation(path)
    return True


def bad_config(c, types, configs, b):
    """the simulator builds in some configurations only: what is available differs"""
    ok = []
    for x in configs:
        p = cargo_start(types, x)
        cargo_errors(p)
        if p.returncode == 0:
            ok.append(x)
    if not ok:
        raise b
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, 'C12-build.replay')
    errs = [l for l in b.err.splitlines() if 'error' in l][:6]
    with open(path, 'w') as o:
        o.write(f'# implementations are missing in {b.config}, present in {",".join(ok)}\n' + ''.join('# ' + l + '\n' for l in errs))
        o.write(f'property C12\nclass BUILD\nbuild {b.config}\ntypes {types.seed} {types.count}\n')
    c.violation(path)


def sources(text):
    return ''.join(f'{k} {x}\n' for k, s in zip(('source', 'use'), text) for x in s.splitlines())


def replay_compile(path):
    """does the definition in the file, together with uses of its mappings, fail to compile (class NUMBER: because of the uses)?"""
    lines = open(path).read().splitlines()
    if 'class NUMBER' in lines and does_not_compile([l for l in lines if not l.startswith('use ')]):
        return False
    return does_not_compile(lines)


def does_not_compile(lines):
    cfg, src = 'std-debug', []
    for l in lines:
        if l.startswith('build '):
            cfg = l.split()[1]
        elif l.startswith(('source ', 'use ')):
            src.append(l.partition(' ')[2] + '\n')
    d = os.path.join(TARGET, 'one')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    feats = CONFIGS[cfg][0]
    open(os.path.join(d, 'Cargo.toml'), 'w').write(
        '[package]\nname = "one"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
        f'funcmap = {{ path = "{REPO}/funcmap", default-features = false, features = [{json.dumps(feats) if feats else ""}] }}\n')
    open(os.path.join(d, 'src', 'lib.rs'), 'w').write(''.join(src))
    for f in ('Cargo.lock',):
        open(os.path.join(d, f), 'w').write(open(os.path.join(SIM, f)).read())
    e = cargo_env(None, 'one-target')
    r = subprocess.run(['cargo', 'check', '--offline', '--message-format=short'], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        note('\n'.join(l for l in r.stderr.splitlines() if 'error' in l)[:800])
    return r.returncode != 0 and 'lib.rs' in r.stderr


def replay_main(path):
    path = os.path.abspath(path)
    hd = {}
    for l in open(path):
        if l.startswith('#'):
            continue
        k, _, v = l.rstrip('\n').partition(' ')
        if k not in ('tape', 'tapes', 'source', 'use'):
            hd[k] = v
    prop = hd['property']
    if prop == 'C13':
        import macro_check
        bad = macro_check.replay(path, hd)
    elif hd['class'] in ('COMPILE', 'NUMBER'):
        bad = replay_compile(path)
    else:
        x = hd['types'].split(' ')
        types = Types(int(x[0]), int(x[1]), x[2].split(',') if len(x) > 2 and x[2] else [])
        if hd['class'] == 'BUILD':
            try:
                build(types, [hd['build']])
                bad = False
            except BuildFailure:
                bad = True
        else:
            cfgs = hd['build'].split()
            build(types, cfgs)
            if hd['class'] == 'CONFIG':
                d = [digest_of(x, path) for x in cfgs]
                say(*d)
                bad = d[0] != d[1]
            else:
                k, out = replay_once(cfgs[0], path, extra=['--log=1'])
                say(out)
                bad = k == {'CRASH': 'CRASH', 'HANG': 'HANG'}.get(hd['class'], 'V')
    say(f'VIOLATION property={prop} replay={path}' if bad else 'no violation')
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ['--replay']:
        return replay_main(a[1])
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(TARGET, 'runs'), exist_ok=True)
    lock = open(os.path.join(TARGET, 'check.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    c = Check(prop, tier, seed)
    if prop == 'C13':
        import macro_check
        macro_check.check(c)
    elif prop == 'C12':
        config_check(c)
    else:
        standard(c)
    return c.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except BuildFailure as b:
        print(f'cannot build {b.config}:\n' + '\n'.join(b.err.splitlines()[-40:]), file=sys.stderr)
        rc = 2
    except HarnessError as e:
        print('check failed:', e, file=sys.stderr)
        rc = 2
    sys.exit(rc)
