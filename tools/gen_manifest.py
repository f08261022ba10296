#!/usr/bin/env python3
# writes MANIFEST.json; run from /verif
import json
T = {
 'C01': 'property-based testing: generated operation histories against a sorted-map model',
 'C02': 'property-based testing: generated trees against a sorted-map model, keys and values held across mutation',
 'C03': 'property-based testing: generated trees and prefixes against a sorted-map model',
 'C04': 'property-based testing: generated tree pairs against map union, with a log of the calls of f',
 'C05': 'property-based testing: generated tree pairs against map intersection, with a log of the calls of f',
 'C06': 'property-based testing: generated tree pairs against the left-join model, with a log of the calls of f',
 'C07': 'property-based testing: generated tree pairs against prefix-set selection on sorted maps',
 'C08': 'property-based testing: generated trees and descend functions against a radix-tree model',
 'C09': 'property-based testing: metamorphic relation, different histories to the same or nearly the same entries',
 'C10': 'stateful property-based testing: interleaved handles, iterators and values against one model per handle',
 'C11': 'stateful property-based testing: attach/reattach/load/detach histories over several stores against a map model',
 'C12': 'property-based testing: differential, attached against detached trees and a map model',
 'C13': 'property-based testing: differential over placements, stores and converters against a map model',
 'C14': 'property-based testing: round trips against an independent reader and writer of the documented format',
 'C15': 'property-based testing with fault injection: every store call of generated operations fails in turn',
 'C16': 'stateful property-based testing: write/read/reopen histories of the paged store against a map model',
 'C17': 'fault enumeration over generated histories: every prefix of the recorded file operations is reopened',
 'C18': 'fault enumeration over generated histories: sampled subsets of unflushed file operations are dropped',
 'C19': 'property-based testing: generated invalid ids over all stores, every valid id read back afterwards',
 'C20': 'property-based testing of concurrent programs: generated threads with randomised schedules, checked per thread and for id uniqueness',
 'C21': 'stateful property-based testing: blobs of every kind of source against plain byte vectors',
 'C22': 'stateful property-based testing: stores behind the trait and behind the dynamic type against a map model',
 'C23': 'property-based testing with a counting, poisoning and quarantining allocator over the programs of all other checks',
 'C24': 'structure-aware fuzzing: mutated and arbitrary node bytes against an independent decoder',
 'C25': 'property-based testing: access logs of the store against the paths a reference reader needs',
 'C26': 'fault enumeration over generated histories: failing, short and interrupted file operations',
}
LEVEL = {'C17': 'fault_enumeration', 'C18': 'fault_enumeration', 'C26': 'fault_enumeration', 'C15': 'fault_enumeration'}
N = {
 'C17': 'exhaustive over the crash points of each generated history (a cut between any two file operations and inside writes); histories are sampled',
 'C18': 'subsets of unflushed operations are enumerated when few and sampled otherwise; histories are sampled; the model of power loss is page-cache write-back in any subset and order',
 'C26': 'every file operation of a generated history is failed in turn (no space, I/O error, interrupted, short); histories are sampled',
 'C15': 'every store call of each generated operation fails in turn; trees and operations are sampled',
 'C20': 'schedules are sampled with randomised yields at allocations and system calls, not enumerated',
 'C23': 'sampled programs; plain memory reads after free are seen through poisoned contents or a crash',
}
D = 'sampled inputs with shrinking; a complete family of small cases is enumerated where the evidence says so; no proof for inputs beyond the generated sizes'
checks = []
for i in sorted(T):
    checks.append({
        'property': i,
        'quick_cmd': f'./run.sh {i}',
        'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': T[i],
        'level': LEVEL.get(i, 'exploration'),
        'level_note': N.get(i, D),
    })
m = {'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': []}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
