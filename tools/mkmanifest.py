#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIMT = 'deterministic simulation with fault injection: '
NOTE = ('Seeded search over simulated runs of the real library, real derive expansions and real std containers; a pass means no violation in the '
        'explored seeds, not a proof. Trusts rustc, std and the reference model in sim/core. ')
T = {
    'C01': ('injected closure failures at every position; each call is checked against the reference model while it runs', ''),
    'C02': ('failures, panics (closure, comparison, hash, destructor), lying comparisons and allocation failures at seeded points; every value is a tracked token with exactly-once accounting on a checked heap', 'Inputs containing B-trees get no destructor panic and no allocation failure: std aborts the process there whoever calls it.'),
    'C03': ('reference model of structure and occurrences, over std types and generated derived types', ''),
    'C04': ('reference model of the visiting order, checked at each invocation', ''),
    'C05': ('identity of every tracked part that is not mapped, checked in the result and while it is built', ''),
    'C06': ('callers on simulated threads with preemption inside callbacks, nesting, suspension and failures; each history compared with the same caller alone', ''),
    'C07': ('panic injection at every callback, payload identity, and follow-up calls compared with a process in which nothing panicked', ''),
    'C08': ('the same run through all four methods, histories compared', ''),
    'C09': ('staged against fused runs of stateful failing closures; identity and commutation', ''),
    'C10': ('rebuilt collections under colliding, reordering and order-preserving key images, looked up and iterated against the model', ''),
    'C11': ('iterators and ranges consumed from both ends by a seeded history before mapping', 'One recorded finding (RangeInclusive iterated to its end).'),
    'C12': ('the same seeds replayed in every feature configuration and profile, semantic histories compared', ''),
    'C13': ('the real macro code run in process under simulated threads, hash seeds, addresses and histories; tokens compared', ''),
    'C14': ('the simulated heap counts and refuses every allocation made during a call', ''),
    'C15': ('the same run under different hash seeds, addresses and call histories; histories compared', 'Recorded findings: HashMap and HashSet lose a custom hasher.'),
    'C16': ('comparisons, hashes, memory requests and stack depth of each call counted by the simulated environment against bounds computed from the model of the input, for small to very large values, with failures', ''),
}
SKIP = set()
NA = {
    'D01': 'whether a definition compiles is decided by rustc at build time; there is no execution, schedule or fault to simulate. (Definitions generated for the simulator that stop compiling are reported under C03.)',
    'D02': 'a property of single pure expansions of syntactic inputs: no time, I/O, concurrency or faults to simulate; what is simulated of expansion (seeds, threads, histories) is C13',
    'D03': 'the set of instantiations that type-check is a static property of the generated bounds; no execution to simulate',
    'D04': 'name resolution and hygiene happen in rustc; no execution to simulate',
    'D05': 'a compile error is the whole observable behaviour; no execution to simulate',
    'D06': 'attribute handling is a pure function of the input tokens, observed as generated code or a compile error; no execution to simulate',
    'D07': 'an equation between types, decided by the type checker; no execution to simulate',
}
checks = []
for p, (how, extra) in T.items():
    if p in SKIP:
        continue
    checks.append({
        'property': p,
        'quick_cmd': f'python3 check.py {p}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p} --tier thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': SIMT + how,
        'level': 'exploration',
        'level_note': (NOTE + extra).strip(),
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': checks,
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()] +
    [{'property': k, 'reason': 'not built yet'} for k in sorted(SKIP)],
    'notes': 'No hooks in /repo: the seams are traits the library is generic over (closures, Ord, Hash, Drop), the global allocator, and the '
             'getrandom symbol. Replay a violation with: python3 check.py --replay FILE',
}
open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
