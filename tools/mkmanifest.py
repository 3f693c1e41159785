#!/usr/bin/env python3
# Regenerates MANIFEST.json from the list of claimed properties.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
KEYS = 'In the key loop the preconditions of the history and search operations are granted, and the text of the current history entry is assumed to be stored apart from the line; the operations themselves are proved under C14, C15 and C17. ' 
CLAIMED = {
 **{f'C0{i}': '' for i in range(1, 10)},
 'C10': 'What the painter answers with is named, not related to the line it was given. ', 'C13': '', 'C20': KEYS, 'C21': KEYS,
 'C11': 'Trees are assumed finite and the completer callbacks not to touch package memory; independence from the text after the cursor is proved through the text each candidate agrees with. ', 'C12': '', 'C14': '', 'C15': '', 'C16': 'The file system is a ghost log of the openings and renamings that succeed; any single operation may fail, a write after a prefix. One process; what the operating system does with the bytes at a power failure is outside. ', 'C17': '', 'C18': 'The runes the buffered reader hands out are a ghost sequence; reads that fail inside the parameters of a sequence are outside the claim. ', 'C19': 'The callback that reads the next key is assumed not to touch package memory. ', 'C22': 'The ioctl wrappers getTermios and setTermios and the signal helpers are trusted. ', 'C23': 'The effect of opening a file is a model (see C16). ', 'C24': 'The byte streams of readers and writers are ghost sequences; net.Conn is assumed not to touch package memory. ', 'C26': 'The windows build is verified here through GOOS=windows; the console procedures of kernel32.dll are a ghost log. The line and screen erasing helpers are trusted. ', 'C25': 'The pipe behind the prefill is assumed to hand out the written bytes in order. ',
}
NA = {
 'C27': 'liveness over thread schedules; contracts on sequential code cannot express it',
 'C28': 'data-race freedom over schedules; needs a permission logic for Go, and no verifier for one is installed here',
 'C29': 'liveness of a concurrent hand-off (lost wake-up); not a property of the calls one at a time',
}
NOTE = ('Every obligation generated from the contracts in /verif/specs and the current source is discharged by z3 or cvc5 for all inputs and '
        'all iterations. Assumes mathematical int, sequential execution of each function, library models listed in the evidence file. ')
checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh ' + i,
                       'technique': 'contract-based deductive verification of the Go source (gover: SSA symbolic execution, inferred and declared loop invariants, SMT back ends)',
                       'level': 'proof', 'level_note': NOTE + CLAIMED[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'contracts not written yet')})
json.dump({'version': 1, 'setup_cmd': 'cd gover && GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=vendor go build -o ../bin/gover .', 'checks': checks, 'not_applicable': na},
          open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
