"""C13: the derive macros' code is run in process by funcmap_macrosim. This prepares that code as an ordinary library,
builds, explores, and reproduces what was found; when the code cannot be hosted that way, rustc itself is run under
seeded hash keys instead."""
import json
import os
import re
import subprocess
import time

import geninputs

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ck():
    import sys
    return sys.modules.get('check') or sys.modules['__main__']


def prepare():
    """copies the macro crate's source, with the compiler interface replaced by proc_macro2's own implementation"""
    c = ck()
    src = os.path.join(c.REPO, 'funcmap_derive')
    d = os.path.join(c.TARGET, 'macro', 'sut')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    wanted = set()
    entries = []
    for base, _, files in os.walk(os.path.join(src, 'src')):
        for f in sorted(files):
            if not f.endswith('.rs'):
                continue
            rel = os.path.relpath(os.path.join(base, f), os.path.join(src, 'src'))
            t = open(os.path.join(base, f)).read()
            for m in re.finditer(r'#\[proc_macro_derive\(\s*(\w+).*?\)\]\s*(?:#\[.*?\]\s*|///.*\n\s*)*pub\s+fn\s+(\w+)', t, re.S):
                entries.append((m.group(1), m.group(2)))
            t = re.sub(r'#\[proc_macro_derive\(.*?\)\]', '', t, flags=re.S)
            t = re.sub(r'extern\s+crate\s+proc_macro\s*;', '', t)
            t = re.sub(r'\bproc_macro\b', 'proc_macro2', t)
            t = re.sub(r'#!\[(?:deny|forbid|warn)\([^\]]*\)\]', '', t)
            if rel == 'lib.rs':
                t = re.sub(r'^\s*//!.*$', '', t, flags=re.M)
                arms = ''.join(f'        {i} => {f}(item),\n' for i, (_, f) in enumerate(entries))
                t += ('\n#[doc(hidden)]\npub const SIM_NAMES: &[&str] = &[' + ', '.join(f'"{n}"' for n, _ in entries) + '];\n'
                      '#[doc(hidden)]\npub fn sim_expand(k: usize, item: proc_macro2::TokenStream) -> proc_macro2::TokenStream {\n'
                      '    match k {\n' + arms + '        _ => unreachable!(),\n    }\n}\n')
            p = os.path.join(d, 'src', rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            wanted.add(p)
            if not os.path.exists(p) or open(p).read() != t:
                open(p, 'w').write(t)
    for base, _, files in os.walk(os.path.join(d, 'src')):
        for f in files:
            if os.path.join(base, f) not in wanted:
                os.unlink(os.path.join(base, f))
    toml = open(os.path.join(src, 'Cargo.toml')).read()
    deps = re.search(r'^\[dependencies\]\n(.*?)(?=^\[|\Z)', toml, re.S | re.M).group(1)
    ed = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M).group(1)
    t = f'[package]\nname = "funcmap_derive_sut"\nversion = "0.0.0"\nedition = "{ed}"\npublish = false\n\n[dependencies]\n{deps}'
    p = os.path.join(d, 'Cargo.toml')
    if not os.path.exists(p) or open(p).read() != t:
        open(p, 'w').write(t)
    return entries


def build():
    c = ck()
    entries = prepare()
    if not entries:
        return 'no derive macros found in the source'
    c.fresh('macro-build', ('funcmap_derive_sut', 'funcmap_macrosim'))
    e = c.cargo_env(None, 'macro-build')
    e['RUSTC_WRAPPER'] = os.path.join(HERE, 'tools', 'rustc_edges.sh')
    r = subprocess.run(['cargo', 'build', '--offline', '--locked', '--message-format=short', '-j', str(c.CORES)], cwd=os.path.join(HERE, 'sim', 'macro'),
                       env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return r.stderr
    return None


def binary():
    return os.path.join(ck().TARGET, 'macro-build', 'debug', 'funcmap_macrosim')


def inputs_file(seed, count):
    c = ck()
    p = os.path.join(c.TARGET, f'inputs-{seed}-{count}.txt')
    open(p, 'w').write('\n'.join(geninputs.generate(seed, count)) + '\n')
    return p


def explore(c, secs, iseed, count, seed0, tag):
    m = ck()
    inp = inputs_file(iseed, count)
    stop = os.path.join(m.TARGET, 'runs', f'run-{tag}.stop')
    if os.path.exists(stop):
        os.unlink(stop)
    ps, outs = [], []
    for i in range(m.CORES):
        out = os.path.join(m.TARGET, 'runs', f'run-{tag}-{i}')
        outs.append(out)
        log = open(out + '.log', 'w')
        ps.append(subprocess.Popen([binary(), 'run', f'--inputs={inp}', f'--seed0={seed0 + i}', f'--step={m.CORES}', f'--time={secs}', f'--stop={stop}',
                                    f'--out={out}'], stdout=log, stderr=subprocess.DEVNULL, env=m.run_env(), cwd=m.TARGET))
    t0, grace = time.time(), None
    while any(p.poll() is None for p in ps):
        time.sleep(0.05)
        if grace is None and any('V ' in open(o + '.log').read() for o in outs):
            grace = time.time() + 2
        if grace and time.time() > grace and not os.path.exists(stop):
            open(stop, 'w').close()
        if time.time() - t0 > secs + 120:
            for p in ps:
                p.kill()
            raise m.HarnessError('macro workers did not stop')
    found = []
    for o, p in zip(outs, ps):
        if p.returncode != 0:
            raise m.HarnessError(f'macro worker ended with {p.returncode}')
        for l in open(o + '.log'):
            if l.startswith('V '):
                _, s, k, _, msg = l.rstrip('\n').split(' ', 4)
                found.append((int(s), k, msg))
            elif l.startswith('S '):
                c.stats.append(json.loads(l[2:]))
        c.sigs.append(o + '.sigs')
        c.inter.append(o + '.inter')
    found.sort()
    seen = set()
    for s, k, msg in found:
        if k in seen or c.reported >= 2:
            continue
        seen.add(k)
        os.makedirs(m.REPLAYS, exist_ok=True)
        raw = os.path.join(m.REPLAYS, f'C13-{c.reported}.raw')
        path = os.path.join(m.REPLAYS, f'C13-{c.reported}.replay')
        subprocess.run([binary(), 'emit', raw, f'--inputs={inp}', f'--seed={s}', f'--class={k}'], check=True, env=m.run_env())
        if subprocess.run([binary(), 'replay', raw], stdout=subprocess.DEVNULL, env=m.run_env()).returncode != 1:
            m.note(f'seed {s}: {msg}: not reproduced')
        r = subprocess.run([binary(), 'shrink', raw, path, '--time=20'], stdout=subprocess.PIPE, env=m.run_env(), text=True)
        if r.returncode or subprocess.run([binary(), 'replay', path], stdout=subprocess.DEVNULL, env=m.run_env()).returncode != 1:
            os.replace(raw, path)
        else:
            os.unlink(raw)
        m.note(f'{k} seed {s}: {msg}')
        c.violation(path)


RULE = ('One evaluation is one simulated run in a fresh forked process: a seed decides how many threads expand which inputs with which macro in which '
        'order, their hash seeds and addresses, and at which allocations one thread is preempted in favour of which other. Non-trivial: the run has more '
        'than one expansion (counted separately); distinct counts different (work lists, switch sequence), hash seeds and addresses not included.')


def check(c):
    m = ck()
    err = build()
    quick = c.tier == 'quick'
    if err:
        m.note('the macro code cannot be hosted in process; rustc is run instead:', err[-1500:])
        rustc_check(c, 6 if quick else 30, 200)
    else:
        a = []
        inp = inputs_file(c.seed, 400)
        for _ in range(2):
            r = subprocess.run([binary(), 'run', f'--inputs={inp}', '--seed0=5', '--count=80'], stdout=subprocess.PIPE, text=True, env=m.run_env())
            a.append([json.loads(l[2:])['hist'] for l in r.stdout.splitlines() if l.startswith('S ')])
        c.extra['determinism_self_check'] = [{'seeds': 80, 'history_hashes': [x[0] if x else None for x in a], 'equal': a[0] == a[1]}]
        for r in range(1 if quick else 4):
            explore(c, 22 if quick else 150, c.seed + 1000 * r, 600 if quick else 3000, m.seed_base(c.seed + r), f'C13-{r}')
        if not c.reported:
            rustc_check(c, 3 if quick else 24, 60 if quick else 150)
    c.extra.update(rule=RULE, real_components=['funcmap_derive (all of src/)', 'syn, quote, proc-macro2, indexmap', 'std hash maps and locks'],
                   stubbed_components=['the compiler side of proc_macro (proc_macro2\'s own tokens)', 'getrandom', 'futex, sched_yield, clocks', 'environment variables, process number', 'allocator (addresses, preemption points)', 'thread scheduling (switches at basic blocks of the macro code, allocations and waits)'])


# ---------------------------------------------------------------- through rustc

PRELOAD = r'''
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
static uint64_t x;
static unsigned char next(void) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x >> 33; }
ssize_t getrandom(void *b, size_t n, unsigned f) {
    if (!x) { const char *s = getenv("SIM_HASH_SEED"); x = s ? strtoull(s, 0, 10) * 0x9e3779b97f4a7c15ull | 1 : 1; }
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = next();
    return n;
}
'''


def rustc_check(c, runs, count):
    """the real compiler expands the same definitions under different hash seeds, in different orders"""
    m = ck()
    d = os.path.join(m.TARGET, 'macro', 'rustc')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    open(os.path.join(d, 'seed.c'), 'w').write(PRELOAD)
    so = os.path.join(d, 'seed.so')
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(d, 'seed.c')], check=True)
    open(os.path.join(d, 'Cargo.toml'), 'w').write('[package]\nname = "onemacro"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                                                   f'funcmap_derive = {{ path = "{m.REPO}/funcmap_derive" }}\n')
    open(os.path.join(d, 'Cargo.lock'), 'w').write(open(os.path.join(HERE, 'sim', 'Cargo.lock')).read())
    inputs = [x for x in geninputs.generate(c.seed, count)[:-8] if re.match(r'(#\[(funcmap|repr|doc)[^!]*)?(pub )?(struct|enum|union) ', x) and 'm!(' not in x and '<(' not in x]
    lib = os.path.join(d, 'src', 'lib.rs')
    open(lib, 'w').write('')
    m.fresh('macro-rustc', ('funcmap_derive', 'onemacro'))
    e = m.cargo_env(None, 'macro-rustc')
    e['RUSTC_BOOTSTRAP'] = 'onemacro'
    r = subprocess.run(['cargo', 'build', '--offline'], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise m.BuildFailure('rustc', r.stderr)
    e['RUSTC_BOOTSTRAP'] = '1'
    deps = os.path.join(m.TARGET, 'macro-rustc', 'debug', 'deps')
    dso = [f for f in sorted(os.listdir(deps), key=lambda f: os.path.getmtime(os.path.join(deps, f))) if f.startswith('libfuncmap_derive') and f.endswith('.so')]

    def expand(seed, order):
        # one module each, so that errors stay apart
        src = os.path.join(d, f'in-{os.getpid()}-{seed}.rs')
        with open(src, 'w') as o:
            for i in order:
                o.write(f'mod sim_{i} {{ #[derive(funcmap_derive::FuncMap, funcmap_derive::TryFuncMap)] {inputs[i]} }}\n')
        env = dict(e, SIM_HASH_SEED=str(seed), LD_PRELOAD=so)
        r = subprocess.run(['rustc', '--edition=2021', '--crate-type=lib', '--crate-name=onemacro', '-Zunpretty=expanded', '-Awarnings', '--error-format=short', '--extern',
                            'funcmap_derive=' + os.path.join(deps, dso[-1]), '-L', 'dependency=' + deps, src], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, cwd=d)
        out = {}
        cur = None
        for l in r.stdout.splitlines():
            k = re.match(r'mod sim_(\d+) \{', l)
            if k:
                cur = int(k.group(1))
                out[cur] = []
            if cur is not None:
                out[cur].append(l)
        errs = {}
        for l in r.stderr.splitlines():
            k = re.match(r'[^:]*:(\d+):(.*)', l)
            if k and int(k.group(1)) <= len(order) and 'error[E' not in l and 'warning' not in l:
                errs.setdefault(order[int(k.group(1)) - 1], []).append(k.group(2))
        os.unlink(src)
        return {i: ('\n'.join(out.get(i, [])), tuple(errs.get(i, []))) for i in order}

    import random
    base = expand(1, list(range(len(inputs))))
    if not any(x[0] for x in base.values()):
        m.note('rustc printed no expansion; this part is left out')
        return
    n = 0
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        order = list(range(len(inputs)))
        rnd = random.Random(c.seed * 1000 + k)
        rnd.shuffle(order)
        return k, order, expand(2 + k, order)
    with ThreadPoolExecutor(m.CORES) as ex:
        for k, order, got in ex.map(one, range(runs)):
            n += len(inputs)
            for i in order:
                if got[i] != base[i]:
                    os.makedirs(m.REPLAYS, exist_ok=True)
                    p = os.path.join(m.REPLAYS, f'C13-rustc-{c.reported}.replay')
                    if c.reported < 1:
                        with open(p, 'w') as o:
                            o.write(f'# rustc expands input {i} differently under hash seed {2 + k} after other definitions\n')
                            o.write(f'property C13\nclass RUSTC\nseed {2 + k}\ncount {count}\nsimseed {c.seed}\norder {" ".join(map(str, order))}\ninput {i} {inputs[i]}\n')
                            o.write('# base: ' + repr(base[i])[:3000] + '\n# here: ' + repr(got[i])[:3000] + '\n')
                        c.violation(p)
                    break
    c.extra['rustc_expansions_compared'] = n
    c.extra['rustc_error_lists_compared'] = sum(1 for x in base.values() if x[1])
    if not c.stats:
        c.stats.append({'runs': n, 'nontrivial': n, 'secs': 1.0, 'families': 2, 'types': len(inputs), 'build': 'rustc', 'faults': {'hash-seed': runs}})


def replay(path, hd):
    m = ck()
    if hd['class'] == 'RUSTC':
        class C:
            tier, seed, stats, extra, reported = 'quick', int(hd['simseed']), [], {}, 0

            def violation(self, p):
                self.reported += 1
        c = C()
        rustc_check(c, int(hd['seed']) - 1, int(hd['count']))
        return c.reported > 0
    err = build()
    if err:
        raise m.BuildFailure('macro', err)
    r = subprocess.run([binary(), 'replay', path], env=m.run_env(), stdout=subprocess.PIPE, text=True)
    m.say(r.stdout)
    return r.returncode == 1
