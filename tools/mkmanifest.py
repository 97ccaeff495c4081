#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json

CLAIMED = {
 'C01': ('differential runtime monitor against a reference parser', 'exploration',
         'Every text tried is decided by an independent parser of the published grammar; trusts that parser. Exhaustive for short token sequences in fixed frames, random beyond.'),
 'C02': ('differential runtime monitor against a reference parser and generating model', 'exploration',
         'Trees of random grammatical files are compared node by node with two independent models.'),
 'C03': ('metamorphic runtime monitor over re-layouts', 'exploration',
         'Pairs of renderings of one model must give equal trees; layouts are random.'),
 'C04': ('fault-injecting readers and differential monitor of entry points', 'fault_enumeration',
         'A read error is injected at every offset of short contents (sampled offsets of long ones) under five chunking behaviours.'),
 'C05': ('race detector, stress workload and state-leak monitor', 'exploration',
         'Observed schedules only; garbage and truncations are random or enumerated per file.'),
 'C06': ('position monitor with independently computed line and column', 'exploration',
         'An illegal character at a token boundary or an oversized literal has one right position.'),
 'C07': ('monitor of generated code with compiler and go/types oracle', 'exploration',
         'Random well-formed specifications; every generated file is type-checked and its declared API compared with the model, a sample is compiled.'),
 'C08': ('differential runtime monitor of compiled parsers against a reference interpreter', 'exploration',
         'Random specifications and inputs; trusts the reference interpreter of the published semantics.'),
 'C09': ('differential runtime monitor at constraint boundaries', 'exploration',
         'Values at and next to every range end of every constrained field reached.'),
 'C10': ('differential runtime monitor of union selection', 'exploration',
         'Every case boundary of every union reached; tags that select no case are outside the statement.'),
 'C11': ('differential runtime monitor of extents with byte-level mutations', 'exploration',
         'Bytes inserted and removed inside extents; reference interpreter decides.'),
 'C12': ('differential runtime monitor with varied contexts', 'exploration',
         'Context values and argument order varied independently of the input.'),
 'C13': ('panic, runaway and allocation monitor on hostile inputs', 'exploration',
         'Allocation is measured per case against a bound linear in the input; processor time watchdog.'),
 'C14': ('memory canaries and aliasing monitor', 'exploration',
         'Guarded buffers are compared before and after; aliasing is found by overwriting.'),
 'C15': ('prefix enumeration under a differential monitor', 'exploration',
         'Every proper prefix of every accepted input generated; specifications and inputs are random.'),
 'C16': ('runtime monitor replaying test vectors in a reference interpreter', 'exploration',
         'All vectors of random specifications under several selectors and sources.'),
 'C17': ('coverage monitor over test vectors', 'exploration',
         'Which case each vector takes is observed by the reference interpreter; complete list of cases from the model.'),
 'C18': ('repetition monitor with content hashes across processes', 'exploration',
         'Byte comparison of repeated generations in one process, other processes and other directories; map order nondeterminism shows with high probability only.'),
 'C19': ('write-fault injection and instrumented runs of generated tests', 'fault_enumeration',
         'Every file and directory of sampled packages is made unwritable in turn (occupied, full device, size limits); generated tests run with recording parsers, also with one vector rejected.'),
 'C20': ('model-based monitor with exhaustive small universes', 'exploration',
         'Exhaustive for all interval collections over small universes at both ends of the 64-bit range, random beyond; uniform choice is only checked for support.'),
 'C21': ('model-based monitor over operation histories', 'exploration',
         'Random sequences of added declarations and lookups, compared with a map model.'),
 'C22': ('differential monitor of branch lookup', 'exploration',
         'All tag values for 8-bit tags, all of some 16-bit ones, all range ends and neighbours for wider ones.'),
 'C23': ('metamorphic and differential monitor over splits into files', 'exploration',
         'Single and split forms are both compared with the reference interpreter on the same kinds of inputs.'),
 'C24': ('monitor of the real binary with fault injection', 'fault_enumeration',
         'The tool is built with a stand-in for the cli package, which cannot be fetched here; every input file is broken and every output file made unwritable in turn.'),
 'C25': ('mistake injection at every site, panic monitor', 'fault_enumeration',
         'One mistake of every listed kind at every site of random specifications; a reference check decides random files with few names.'),
 'C26': ('race detector and comparison with runs alone', 'exploration',
         'Observed schedules only.'),
 'C27': ('model-based monitor over operation histories', 'exploration',
         'Complete state compared with a map model after every operation of random histories.'),
 'C28': ('metamorphic runtime monitor of reused objects', 'exploration',
         'Result in a used object compared with the result in a fresh one.'),
 'C29': ('monitor of generated files with go/parser, go/format and go/types as oracles', 'exploration',
         'Every file generated for random specifications and made corpora is parsed, formatted again and read back.'),
 'C30': ('runtime monitor of the file system with injected faults', 'fault_enumeration',
         'Files compared with the corpus; every file and directory of small corpora, and a sample of larger ones, is obstructed in turn.'),
 'C31': ('model-based runtime monitor of the test helpers', 'exploration',
         'Random directories, pairs of files and sources; helpers that need a running test run in one of their own.'),
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'All checks run the real code of /repo under monitors; see DESIGN.md. No hooks in /repo are needed.'}
for p in props:
    i = p['id']
    if i in CLAIMED:
        t, l, n = CLAIMED[i]
        m['checks'].append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': l, 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'The monitor for this property is not built yet.'})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks')
