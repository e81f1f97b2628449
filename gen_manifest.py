#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {
 'C17': 'A pure function of one value: no storage, schedule, time, randomness, fault or second party takes part, so there is nothing to simulate or inject. (The conversions of property values that travelled through a file are observed as part of C03.)',
 'C18': 'A pure function of one value: no storage, schedule, time, randomness, fault or second party takes part, so there is nothing to simulate or inject. (The conversions of timestamps that travelled through a file are observed as part of C03.)',
}
T = 'deterministic simulation with fault injection: seeded search over '
TECH = {
 'C01': 'write histories and transfer schedules (short, split and interrupted transfers) on simulated storage, against a reference model',
 'C02': 'block structures, read windows and transfer schedules on simulated storage, against a reference model',
 'C03': 'interleaved property and sample histories and transfer schedules on simulated storage, against a reference model',
 'C04': 'write histories with hostile names and reopenings on simulated storage, against a reference model',
 'C05': 'write histories and transfer schedules, the stored bytes judged by an independent strict decoder',
 'C06': 'files of a simulated second writer (independent encoder) alternating with own sessions, against independent decoder and reference model',
 'C07': 'histories with storage faults, crashes and recoveries, every storage write judged by an append-only monitor',
 'C08': 'crash points at every byte of the recorded writes, recovery judged against the set of acceptable prefixes',
 'C09': 'rounds of crash, reopening and appending at any byte, judged against the set of acceptable prefixes',
 'C10': 'interleavings of a writer\'s storage writes with the storage accesses of readers, judged against the set of acceptable prefixes',
 'C11': 'read and seek failures at any storage access, results judged against the reference model, then retried',
 'C12': 'write and flush failures, full disks and lost sessions at any storage access, judged against the set of acceptable outcomes',
 'C13': 'histories with refused calls, stored bytes compared with a twin execution without them',
 'C14': 'stored files damaged at random places, with bounded storage accesses and no panic, abort or hang',
 'C15': 'stored files declaring impossible sizes, with allocations failing above a limit',
 'C16': 'path-based sessions over simulated file system calls (open, read, write, lseek ... interposed) with short, interrupted and failing calls',
 'C19': 'unreadable parts placed in the stored samples of own, foreign and huge sparse files, reads and appends judged by an independent decoder\'s placement of every sample',
 'C20': 'interleavings of another application\'s storage writes (independent encoder, segments completed or extended in place) with the storage accesses of opening and reading, judged by an independent decoder at every moment',
}
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    checks.append({
        'property': i,
        'quick_cmd': f'bash check.sh {i} quick',
        'thorough_cmd': f'bash check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': T + TECH[i],
        'level': 'exploration',
        'level_note': 'Sampled, not exhaustive: each seed is one exactly repeatable execution of the real library compiled from /repo; the tens of thousands of runs of the quick tier and twenty times as many of the thorough tier give no guarantee for what they did not reach. Trusts the simulated storage (writes keep their order), the reference model and the independent TDMS codec, as described in DESIGN.md.',
    })
m = {
 'version': 1,
 'setup_cmd': 'bash build.sh',
 'checks': checks,
 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
 'notes': 'No hooks in /repo: the generic storage parameter of TdmsFile, the C library\'s file calls and the global allocator are the seams. bash replay.sh FILE runs a replay file again.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
