#!/usr/bin/env python3
"""Writes sim/checks.json and MANIFEST.json (the one place where what each check does is described)."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = 'A case is drawn from its seed: generated JSON documents (nested objects and arrays, tables of records, escapes and brackets in strings, white space styles, sometimes record streams), queries that walk to random nodes, and a client program; the simulator decides schedule, heap, clock and reads. '
N = {'_assumptions': [
 'documents are well-formed JSON (torn ones in C16): most up to 2.5 kB, some to 9 kB with long strings, a few with one array or object of up to 2500 values (4500 thorough, 60 kB), nested up to 40 levels, so the fixed limits of the engine (stacks of 100) are not exceeded',
 'queries stay in the supported language: no filter as last step; after a filter the path does not end at a value its own condition looks at; a range or filter behind a descendant step only where its name does not occur inside itself (outside it the known findings apply)',
 'threads switch at instrumented memory accesses, library calls and thread operations, i.e. under sequential consistency; data races are decided separately by happens-before (C11)',
 'the code is compiled by clang -O1 with thread-sanitizer instrumentation, not by the release build']}
def c(id, how, rule, assumptions=(), level='exploration'):
    N[id] = {'technique': 'deterministic simulation with fault injection: ' + how, 'rule': base + rule, 'assumptions': list(assumptions), 'level': level}
c('C01','seeded schedules and chunkings, parallel result list compared with the serial one', 'One serial run, then one to three parallel runs with random thread counts (1 to 60), each compared element by element with the serial result.')
c('C02','seeded schedules with constraint tables trained on the same or another document, compared with the serial run', 'Constraints are learned from the queried or a differently shaped document, then one to three constraint-guided runs are compared with the serial result.')
c('C03','seeded memory bounds and schedules, compared with the unbounded serial run', 'One unbounded serial run, then runs in random modes with memory bounds from 20 bytes to half of the document.')
c('C04','seeded documents, queries and read fragmentation against an executable reference evaluator', 'Serial runs of one to five queries, results compared with an independent reference evaluator; reads are cut to random lengths, stdio buffers to random sizes.')
c('C05','seeded split histories on interleaved contexts against the reference with release positions', 'One or two contexts are fed the stream in one to nine pieces, interleaved; after every piece the list is compared with the matches the reference has completed by then.')
c('C06','seeded partitions and bounded loads under fragmented reads, byte conservation and cut positions checked', 'Partitions of memory and files into 1 to 320 chunks, bounded loads and whole loads; texts are put together and compared, cuts are compared with the token starts of an independent scanner.')
c('C07','seeded open, seek and read faults against the reference, with recovery after the faults', 'One or two faults (single, repeated or persistent failures of open, seek, read) at random calls during random operations; a result must be right or absent; then faults stop and everything must answer.', level='fault_enumeration')
c('C08','seeded thread-creation faults and schedules, compared with the serial run', 'One to three ranges of thread creations are refused during parallel and constraint-guided runs (up to 130 threads).', level='fault_enumeration')
c('C09','seeded allocation faults: right answer, reported failure or fail-stop', 'One random allocation fails, or all from a random one on; a run that ends must have returned the right answer or none.', ['a stop by abort or by an access to address 0 (or a small offset) right after the failed allocation counts as fail-stop'], level='fault_enumeration')
c('C10','seeded interleavings of two or three clients and their workers against solo runs', 'Two or three clients run serial, parallel, constraint-guided, streaming and faulty operations on shared or own paths at the same time; answers are compared with those computed alone before.')
c('C11','vector-clock race detection over seeded interleavings', 'As C10, with every pair of conflicting accesses without happens-before reported, whatever the schedule made of it.')
c('C12','twin executions that differ in memory contents, heap layout, clock and schedule', 'Each case is executed twice with different fill patterns, stack contents, allocator policies, clock jumps and schedules; all answers of both must be identical.')
c('C13','shadow-memory checking of every access during seeded runs with faults', 'Runs, partial runs, partitions, malformed paths and releases in random order, with faults; an access outside a live block, a double or wild free ends the run; here a non-empty answer counts also when it is only returned.', ['stack and global buffers are only covered where the compiler knows their bounds (-fsanitize=bounds)'])
c('C14','seeded cycles of runs and releases with faults, heap and open files compared', 'A run and the release of its results is repeated; blocks and bytes in use must not exceed those before the cycle, and no file may stay open.', ['the compiled path itself is not part of a cycle (known finding)'])
c('C15','deadlock detection and step bounds over seeded schedules and faults', 'Two or three clients under thread, open, read and seek faults and stalled threads; a state without runnable thread, 60 to 210 million steps (by input size) or 40 CPU seconds is a violation; afterwards the answers are compared.')
c('C16','seeded tears of the file against the reference with release positions', 'One to three torn copies of the document are run in random modes; the list must be what the reference completes before the tear.', level='fault_enumeration')
c('C17','seeded destruction points of streaming contexts, heap and result list compared', 'A context is fed zero to four pieces and destroyed; the list is compared before and after, memory must return to its level, later runs must answer.', level='fault_enumeration')
c('C18','seeded histories of runs and releases under reusing and poisoning allocators', 'Two to five runs of two paths; lists are compared again after other runs and after releases of paths, constraints, contexts and other lists.')
c('C19','seeded boundaries inside filtered elements, reference with release positions', 'As C05, with filter queries only, followed by a bounded or parallel run.')
c('C20','seeded boundaries inside indexed arrays, reference with release positions', 'As C05, with index and range queries only, followed by a bounded or parallel run.')
c('C21','seeded schedules over the building blocks, compared with the serial run', 'Partition of file or stream, parallel automata with or without constraints, filter; or streaming automaton (answering only, learning constraints at the same time, or over the successive pieces of a bounded load) and filter; each compared with the serial result.')
c('C22','seeded record streams in all run modes against the reference', 'Two to seven records with varying separators; runs in random modes and optionally a streaming context.')
c('C23','seeded repetitive streams, memory besides the results compared between repetitions', 'A record is repeated 3 to 9 times, as a stream of records or in one array, and fed to a context with the same cuts in every repetition: after each piece the bytes in use besides the result list must not exceed those after the same piece of the second repetition. Or a long repetition runs under a memory bound and its peak is compared with that of a short one.')
NA = {'C90': 'a pure function of the path text: no schedule, time, I/O or second party takes part; its effect on answers is covered by the comparison with the reference in C04',
      'C91': 'a pure function of the path text: nothing in it depends on anything a simulator decides'}
json.dump(N, open(os.path.join(H, 'sim', 'checks.json'), 'w'), indent=1)
ids = sorted(k for k in N if k[0] != '_')
M = {'version': 1, 'setup_cmd': 'bash sim/build.sh --harness', 'hooks': {'guard': 'JPSTREAM_SIM', 'enable': 'sim/build.sh compiles /repo\'s sources with -DJPSTREAM_SIM into a scratch directory', 'source_commits': ['27d7118']},
 'checks': [{'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i, 'technique': N[i]['technique'], 'level': N[i]['level'],
   'level_note': 'Seeded search: what was explored held; it does not exclude violations on unexplored seeds. Each reported violation was executed twice with the same event hash, minimised, and reproduced from its replay file in a fresh process. Assumes: ' + '; '.join(N['_assumptions'] + N[i]['assumptions']) + '.'} for i in ids],
 'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
 'notes': 'python3 check.py <id> builds the simulator from /repo and searches for about 40 s (600 s thorough). bash replay.sh FILE rebuilds and replays a violation.'}
json.dump(M, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
