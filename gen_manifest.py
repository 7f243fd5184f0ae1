#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTES = {
 'C01': 'seeded search over histories of editor messages, disk changes and notifications; open buffers compared with the editor text after every step and in a lookup',
 'C02': 'same histories, ending with documents closed; compared with a cold start and with the disk',
 'C03': 'same histories, mostly disk changes; after notifications have settled the whole project view is compared with the disk',
 'C04': 'same histories; cached results of every loaded file compared with a cold start',
 'C05': 'same histories; last published result of each open document compared with a cold start',
 'C06': 'same histories plus panics injected at seeded points, with the recovery path of the server',
 'C07': 'seeded thread schedules of concurrent loads, resolves and walks over one tree, compared with a sequential execution',
 'C08': 'seeded thread schedules of 2-4 threads; linearizability search against a sequential list',
 'C09': 'seeded thread schedules of concurrent workspace registration and lookups, checked against a set model',
 'C10': 'seeded I/O faults (errors, short reads, interrupted calls, vanishing files, link cycles, special files, bad encodings)',
 'C11': 'seeded clock positions, clock jumps, read faults and edits of license files against a reference model',
 'C12': 'seeded thread schedules and write faults of the log writer and rotation; log content compared with the records issued',
 'C13': 'seeded thread schedules of nested timed spans under the simulated clock; report compared with a model',
 'C14': 'seeded thread schedules of threads entering, leaving and panicking in contexts; messages compared with a per-thread stack model',
 'C15': 'seeded thread schedules of concurrent parses and tree queries; results compared with a parse alone in a fresh process, leaves with the text',
 'C16': 'seeded nested roots, links and lookups; identities compared with a path model',
 'C17': 'seeded watcher faults (limits, failing calls, stalls) and schedules; progress within a bounded number of steps',
 'C18': 'same histories with .gitignore files on disk and in the editor, panics and recovery; files selected for checking compared with an independent model of the rules and with a cold start',
}
CLAIMED = open('/verif/claimed.txt').read().split()
NA = {
 'N01': 'pure function of one text: no concurrency, time, I/O or party to simulate (what depends on scheduling is C15)',
 'N02': 'pure function of the sources; the crate does not build here (dependencies missing offline) and its results depend on no schedule or fault',
 'N03': 'crates/zubanls does not build offline (lsp-server, lsp-types missing); the part below it is C01-C06',
 'N04': 'pure function of one text; crates/config does not build offline (rust-ini missing)',
 'N05': 'pure string function: nothing for a simulator to schedule or fail',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'technique': 'deterministic simulation with fault injection: seeded search over schedules, disk histories and faults',
            'level': 'exploration',
            'level_note': NOTES[i] + '. Real code above libc; kernel, clock and scheduler simulated; sampled, not exhaustive.',
            'evidence_file': f'evidence/{i}.json',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'the check is not built yet')})
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'hooks': json.load(open('/verif/hooks.json')),
 'checks': checks,
 'not_applicable': na,
 'notes': 'Replay a failure with sim/target/debug/zsim replay FILE [--trace]; determinism is tested by zsim determinism --property ID.',
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
