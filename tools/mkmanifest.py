#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SMC = 'stateless model checking of the real code (controlled scheduler, virtual time, deviation-bounded exhaustive interleavings)'
ENUM = 'bounded-exhaustive exploration of timed programs on the real code in virtual time against a reference oracle'
BUF = 'bounded-exhaustive timed programs plus deviation-bounded exploration of thread interleavings of the real code in virtual time'
FLT = 'fault enumeration: real processes killed at every line event of FileLock, judged against survivors'
T = {
    'C01': (SMC, 'model_checking', 'All schedules within the deviation bounds (2 for the smallest scenarios, 1 for the others; 3/2 in thorough) of about 700 closed scenarios of 1..4 loops, real code, virtual time; computations of an instant up to many hours.'),
    'C05': (SMC, 'model_checking', 'Same exploration as C01; termination and idle waiting are measured exactly in virtual time.'),
    'C06': (SMC, 'model_checking', 'Same exploration as C01; every outcome is attributed to the invocation or cancellation that caused it.'),
    'C03': (BUF, 'model_checking', 'Every program of 1..2 producers of 20 kinds x gaps x function behaviour, 3 producers and large programs, piecewise and long iterables, failure runs of 150 (400), re-entrant submissions, falsy/equal values; foreign threads interleaved at every source line (1 deviation; 2 in thorough).'),
    'C07': (BUF, 'model_checking', 'wait() at every distinguishable instant x producer kind x function behaviour, several waiters, shutdown at every instant and loop phase, wait_from_anywhere interleaved.'),
    'C08': (BUF, 'model_checking', 'Debounce reference over all gap sequences of 1..5 immediate submissions, long bursts and chains, iterables in pieces; overlap and empty set monitored in all C03/C07-style programs and interleavings.'),
    'C04': (ENUM, 'model_checking', 'Every behaviour (22+ codes per key) of one batch of 1..3 keys x yield order x durations, all timed programs of 1..3 (4) calls x limits x retention at several time scales, many keys/callers/batches, class and decorator.'),
    'C09': (ENUM, 'model_checking', '1..4 callers, every subset cancelled or timed out at every distinguishable instant of a batch, with sharers, later callers, hundreds of calls, time scales and a final liveness probe.'),
    'C10': (ENUM, 'model_checking', 'All arrival sequences of 1..5 calls over 4 gaps x limits x durations x time scales, bursts of 1..12 and many, failing batches, cancelled callers, max_batch_size mutated.'),
    'C11': (ENUM, 'model_checking', 'All same-key histories over the distinguishable gaps x retention x outcome, several and many keys, time scales, chained and cancelled callers, against a reference window automaton.'),
    'C02': (SMC, 'model_checking', 'All line interleavings (1 deviation; 2 for the core scenarios, 3 in thorough) of 2..4 threads over 1..3 objects, real flock on scratch files (also under other path names, and different files), timeouts x poll intervals, holds of hours, every errno; real processes suspended at every line, forked while holding, and all short operation sequences of 2..3 processes.'),
    'C12': ('explicit-state exploration of all operation sequences (with injected OS errors) of the real FileLock against a reference automaton, plus controlled-scheduler interleavings', 'model_checking', 'Every operation and fault (every errno, KeyboardInterrupt) in every reachable state of 2 threads x 1..2 objects (nesting up to 3), plus the interleavings of C02 with elapsed virtual time; timeouts x poll intervals, long waits.'),
    'C13': (FLT, 'fault_enumeration', 'A process is killed at every line (thorough: every bytecode) of acquire/release in 12 programs x 3 configurations with 0..2 waiting contenders; two successive victims; holders with forked children; blocked waiters; old lock files.'),
    'C14': (ENUM, 'model_checking', 'Every pair (a, b, a) of signatures over small domains, concurrent pairs/triples, histories of up to 4 (5) calls with every eviction sequence of up to 2 evictions.'),
    'C15': (BUF, 'model_checking', 'Every way of applying each decorator x grid of all option subsets (incl. large values) x timed programs must give identical traces; documented effect of each option; decorated batchers on 1..3 successive loops (left open, cut, dropped) and 2..3 concurrent loops under all line interleavings with 1 deviation (2 in thorough).'),
    'C16': (BUF, 'model_checking', 'All sources of length 0..6 (8 sync and 4 async kinds, 10 containers, 20 odd elements, failure at every position, 21 exception classes), long sequences, durations of producer and consumer from a grid up to a day, sources that wait for the consumer, consumers that give up, bridges side by side and in a row; all line interleavings with up to 3 deviations (4 in thorough).'),
    'C17': (SMC, 'model_checking', 'Every awaitable kind x outcome (9 exceptions, 12 kinds of result) x duration x state of the target loop; many calls and loops; all line interleavings (1 deviation; 2 for core scenarios and in thorough) of 1..3 callers, loop_in_thread threads and a stopping target; termination judged in virtual time.'),
    'C18': (ENUM, 'model_checking', 'Every source of length <= 7 (9) and long ones (5000), odd elements, condition pattern (also odd callables) and consumption order (all binary sequences of n+2 next() calls), on the real functions.'),
    'C19': (ENUM, 'model_checking', 'All item lists of 0..4 pairs over a fragment grammar with hand-written denotations, 22 separators, 15 container forms (str subclasses included); tripwire object detects any evaluation.'),
    'C20': (ENUM, 'model_checking', 'All lists of 0..5 (and up to 200) awaitables over a small exception hierarchy (special and unusual classes) x finishing orders x filters in virtual time.'),
}
def main():
    only = set(sys.argv[1:])
    checks = []
    for p, (tech, level, note) in sorted(T.items()):
        checks.append({'property': p, 'quick_cmd': f'./check {p}',
                       'thorough_cmd': f'./check {p} --tier thorough',
                       'technique': tech, 'level': level, 'level_note': note})
    na = []
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    for i in ids:
        if i not in T:
            na.append({'property': i, 'reason': 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'Everything is Python; the code under test is imported from source text of /repo at run time, no build step and no hooks in /repo.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
main()
