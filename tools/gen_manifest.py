#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. A property is claimed when it has an entry in NOTES."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
PBT = 'property-based testing'
NOTES = {
 'C01': (PBT + ': generated commit histories against a reference set model', 'exploration',
   'Every committed layer of thousands of generated histories is compared, by value, with a set model, through the handle returned by commit and after a fresh load. Bounded by the generator: up to about 12 layers, 6-700 terms, bulk commits of up to 3000 calls.'),
 'C02': (PBT + ': every pattern query against a full-scan filter', 'exploration',
   'All pattern queries over all (small layers) or sampled (large layers) ids, existing and not, compared with a filter over the model; layers with and without rollups, held and freshly loaded, four storage kinds.'),
 'C03': (PBT + ': dictionary round trips against a model of term introduction', 'exploration',
   'Every term of every layer is resolved both ways and compared over generations, rollups, reloads; unknown terms and out-of-range ids are probed; five vocabularies including 18 value types and awkward strings.'),
 'C04': (PBT + ': metamorphic snapshots over stateful histories', 'exploration',
   'Snapshots of every layer (contents, ids, changes, lineage, counts) are taken when it is created and compared after later operations of every kind, through held and fresh handles.'),
 'C05': (PBT + ': change queries against model set differences, four access paths', 'exploration',
   'The twelve change queries, the counts and the net-change walks, through loaded layers, uncached stores, cold and warm caches, with and without rollups.'),
 'C06': (PBT + ': metamorphic comparison before/after generated rollup sequences', 'exploration',
   'Sequences of complete, partial and imprecise rollups in any order; all layers of the store are compared with their earlier snapshot and the model after each, after reopening, and as parents of new commits.'),
 'C07': (PBT + ': squash results against the model', 'exploration',
   'Squash and partial squash over histories with removals, rollups and earlier squashes, with all queries on the result and snapshots of everything else.'),
 'C08': (PBT + ': merges against the union of models', 'exploration',
   'Merges of one to four base layers (commits, squashes, earlier merges, rolled-up ones), all queries on the result, snapshots of the inputs.'),
 'C19': (PBT + ': lineage answers against the modelled tree', 'exploration',
   'Parents, stacks, partial stacks and all pairwise ancestor tests, stored, cached and loaded, over histories with rollups, squashes, merges and transfers.'),
 'C11': (PBT + ': stateful label scripts against a sequential label model', 'exploration',
   'Scripts of named-graph and raw label operations over several labels and stale handles on three label stores, with reopening; outcome and whole label state compared with the model after every operation.'),
 'C15': (PBT + ': builder call scripts against a set model and a permuted rebuild', 'exploration',
   'Builder calls by value, by id, through with_builder and clones, deltas and diffs from own and other stores, use after commit; the result is compared with the model and with a rebuild from permuted calls.'),
 'C18': (PBT + ': enumeration against the set of created layers and labels', 'exploration',
   'Layer and label listings and lookups of existing, unknown and uncommitted ids on four storage kinds, before and after reopening.'),
 'C09': (PBT + ': pack round trips between generated stores', 'exploration',
   'Histories on any storage kind are exported and imported, in subsets and orders, with absent ids, overlaps and repeated imports, into any storage kind; every imported and pre-existing layer is compared with the model and its snapshot.'),
 'C20': (PBT + ': structured fuzzing of names and packs', 'exploration',
   'Layer names, and packs that were truncated, corrupted, re-compressed or built entry by entry with hostile names, sizes and contents, are given to the parsing and import functions; any panic, abort, hang, excessive allocation or damage to existing layers is a violation.'),

 'C10': (PBT + ': one generated history applied to four storage kinds at once, compared observation by observation', 'exploration',
   'The same store operations run on memory, directory, raw and cached archive stores; after each step all observables (by value, modulo layer names) are compared with each other and the model, with reopening at generated points and second openers of the same path.'),
 'C12': (PBT + ': generated schedules over concurrent clients, judged by a brute-force linearizability check', 'exploration',
   'Clients on one or several directory stores are stopped before every system call and released in a generated order; tasks on memory, directory and cached label stores are polled in generated orders and abandoned at generated points; threads hammer the memory store. Every history of outcomes, with the final labels, must be explained by some order consistent with real time.'),
 'C13': (PBT + ' with injected crashes: every libc file call of the store is recorded, and the state after a power loss is rebuilt at sampled calls', 'exploration',
   'Histories of commits, rollups, merges, imports and label changes are cut before sampled mutating or flushing system calls; the file tree with unflushed data lost, partly lost or kept is reopened, and every acknowledged layer and label is compared with the model, the interrupted operation is repeated and new work is done.'),
 'C14': (PBT + ' with injected faults: sampled libc file calls of the store fail or transfer less than asked', 'exploration',
   'The same histories with runs of failing system calls (EIO, ENOSPC, EMFILE) and short transfers; each operation must report an error or take full effect, nothing may panic or hang, everything acknowledged stays as it was, and the failed operation succeeds when repeated.'),
 'C17': (PBT + ': the cache against its own storage, under generated interleavings, failures and abandoned lookups', 'exploration',
   'Generated rounds of concurrent reads and stores of archives of many sizes go through the LRU backend over a recording storage with generated failures; every answer must be one the storage could have given in that span, what is retained must be true and within the limit, and nothing may panic or wait for ever.'),
 'C16': (PBT + ': histories of several clients under generated interleavings, against the sequential model', 'exploration',
   'Generated histories of several clients (loads, queries, own and shared builders, commits, rollups, squashes, merges, imports, exports, listing) run over one store, or over several stores on one path, interleaved at system calls, at storage accesses, or as real threads. Every answer, and the store in the end and reopened, is compared with the model, for which the order of these operations makes no difference.'),
 'C21': (PBT + ': synchronous calls against the asynchronous ones and the model', 'exploration',
   'Generated scripts over the synchronous interface; each answer is compared with the asynchronous interface on the same store, and with the model.'),
 'C22': (PBT + ': stateful programs over the files of layers against a byte-exact model', 'exploration',
   'Programs of creating, writing, finalizing, storing, partly reading, holding and reopening on four storage kinds; every file, also the absent ones, is compared with a map of bytes through every way of reading it, archives also by parsing them whole and from a dribbling reader. Bounded: 6 layers, up to all 57 files, up to 3 MB each.'),
}
NA = {}
try:
    exec(open(os.path.join(HERE, 'tools', 'manifest_notes.py')).read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTES:
        t, lv, note = NOTES[i]
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s thorough' % i,
                       'technique': t, 'level': lv, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': './check build', 'checks': checks, 'not_applicable': na,
     'notes': 'One harness binary (harness/) decides every property by generated-input search; DESIGN.md has the details, known_findings.txt the defects found.'}
open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not claimed')
