#!/usr/bin/env python3
"""Writes the per-property section of DESIGN.md from this table and props.json (between the markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what is specified and against what oracle; why beyond tests
D = {
'C01': 'The oracle is the definition: AND over included literals, false if none. Clause outputs are read off scores: weights are distinct powers of two and the threshold is out of reach, so one score determines every clause. Tests evaluate a few states; here every inclusion pattern x sample is evaluated, and each literal position around every tile and word boundary.',
'C02': 'Each clause includes just "its" literal, so the sample sets the vector of clause outputs; the oracle is signed summation, clamping, arg-max with lowest index on ties, and a count for accuracy. All output vectors, thresholds, batch orders.',
'C03': 'The step relation of a clause (Type I/II on true/false clauses, coin, boost, weights) is written as a predicate on (before, after, sample) in `steps.hpp`. Soundness: every state reached under any enumerated draws satisfies it, for clauses of the trained and one other label only. Completeness: for small machines the union of results over all outcomes is exactly the set of legal results. Histories repeat this over several samples and calls, so that stale caches (clause outputs, feedback vectors, coin) show.',
'C04': 'As C03, for regressors: the direction follows the sign of votes - response, and a result is the composition of any number of single-clause feedbacks. Result sets are computed by closure of the step relation and compared for equality.',
'C05': 'Range invariant checked on every state visited; start states lie on, next to and between the limits, and small machines are explored to a fixed point.',
'C06': 'The mask bit of a literal must equal "automaton >= 0" after every step; bits beyond the last feature must be clear. Start states next to the inclusion boundary, so that every step type crosses it in both directions.',
'C07': 'The whole product of performance settings is run on the same data and compared with the plainest one: automata, weights, generator positions and predictions. From prepared states the same is done with literals beyond the first tile.',
'C08': 'See "controlled threads". The interleavings explored are complete up to the preemption bound at byte granularity; together with the absence of conflicts between workers (checked in every execution) the result carries over to all schedules of the same accesses. The runtime that stands in for libgomp knows every way of sharing a loop (static, dynamic, guided, chosen at run time; any number of loops in a region), sections, single, critical, atomic and barriers; tasks are run where they are made.',
'C09': 'From every state in the life graph, fit must reach the state which a fresh estimator reaches (FullState: parameters, automata, weights, mask, counting type, both generators), and behave alike in later calls.',
'C10': 'From every state in the life graph, runs for all splits of the epochs must reach the same FullState.',
'C11': 'In every state of the life graph every refusable call must return its documented status and leave FullState and subsequent training unchanged.',
'C12': 'The oracle is the acceptance predicate. Shapes, values and every padding bit are enumerated one at a time and in small products; calls are made on fitted and unfitted estimators, on all entry points.',
'C13': 'Snapshot (`clone_state` + constructor) and JSON round trips from every state of the life graph into receivers that are fresh, differently fitted or identical; equality of FullState and of later behaviour. Generators are saved at every position near a refill.',
'C14': '(a) Sequences on two live estimators, each compared with its own history alone. (b) Access sets of all pairs of operations on two estimators executed by two threads must not conflict: then all their interleavings are equivalent.',
'C15': 'The documented domains and defaults are a table in `c15_est.cpp`; every value, pair, argument order, passing mode and one-byte edit of documents is checked against it (accepted values must be recorded exactly, refused ones give a status, nothing throws).',
'C16': 'The state of one clause makes each pick visible. For each draw it is found whether it decides how many, or which, literals are picked; its outcomes are then enumerated, and the count must change at the exact point features/s demands.',
'C17': 'Model: (seed, number of draws). All operation pairs/sequences at all positions; the float conversion is checked on all 2^32 raw values.',
'C18': 'Scores are set by the clause weights. Every pair of scores is run with draws at 0+, 1, the quartiles and on both sides of (T -/+ v)/2T (3e-6 and 1e-3 away); the set of clauses that change must flip there. Each draw on its own must decide exactly one clause.',
'C19': 'The number of feedbacks is the number of single automaton moves; expected counts are computed in exact rational or long double arithmetic with a tolerance of rounding only. All 65536 outcomes of the normal approximation draw are run, mean and variance are compared with the binomial\'s.',
'C20': 'A plain two-dimensional array is the oracle; every operation is done on every element of every shape, then sequences on two containers. For shapes too large to create, the size of the storage asked for is read off an allocator that refuses it.',
'C21': 'From every state of the life graph, every sequence of queries must answer as fresh copies do and leave FullState alone.',
'C22': 'Alignment, completeness and independence checked at every offset; sequences against `std::vector`; bytes in use before and after.',
'C23': 'The instrumented implementation is the monitor; the exploration supplies shapes, extremes and call sequences.',
'C24': 'Expected shapes are computed from data and parameters; products of all dimensions.',
'C25': 'State graph of a small machine (all states, all draws, all samples) computed by running the library; backward reachability from the correct states must cover every state.',
'C26': 'Granting exactly one feedback draw makes one clause record which sample and label role it saw; trees over shuffle and label draws give the set of possible epochs, compared with all permutations x all contrasted labels.',
'C27': 'The same automata, weights and draws in both variants; scores must match everywhere and steps wherever the coin picks nothing or everything.',
'C28': 'The position of every value of a saved document is found by a scanner of its own (not the library\'s); every damaged text derived from it must throw, FullState and `operator==` of the receiver must be what they were, and the intact text must restore afterwards.',
'C29': 'The allocator is the harness\'s own: each allocation of a call is numbered, and the call is repeated from the same state with each of them failing. The call must throw `std::bad_alloc` or return an error status (or succeed with the right answer), no block may be left over, FullState must be that from before, all queries must answer and later calls lead on as if nothing had happened. After a failure within partial_fit of a fitted estimator the state may be one further on, but range, mask, weights and later behaviour must be those of a whole estimator. A test suite never runs out of memory.',
'C30': 'File descriptors 1 and 2 are redirected around every call and read back. The oracle: nothing at all unless verbose; otherwise nothing on standard output, nothing from calls that do not train, and from trainings the lines Epoch 1 to n in order, preceded (if a new model is made) by each parameter once, whose text must denote the value read_params gives and the shape and width the model has.',
'C31': 'The oracle is a pair (side, value). Payloads count their lives and own memory. Every program of operations is run; after each one the side, the value, the calls made to the functions passed in, and the operand left behind are compared, and at the end no payload may be left. Joining a constant result without functions does not compile in the library and is not claimed.',
'C32': 'The oracle is the complete contents of a state (parameters with types, automata, counting width, weights, mask, position and remaining stream of both generators). States are collected along all short histories, each content in up to three ways, and compared pairwise; single entries, pairs of entries and shapes are then changed in copies.',
}
P = json.load(open(V + '/props.json')); out = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); q = P[p['id']]
    out.append('### %s  %s\n\n%s\n\n*Technique:* %s.  *Bounds:* %s' % (p['id'], p['title'], D[p['id']], q['technique'], q['bounds']))
    t = q.get('cost')
    if t: out[-1] += '  *Cost:* ' + t
s = open(V + '/DESIGN.md').read()
a, b = '<!-- properties -->', '<!-- /properties -->'
s = s[:s.index(a)] + a + '\n\n' + '\n\n'.join(out) + '\n\n' + s[s.index(b):]
# table of planted bugs
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    f = V + '/seeded/' + i + '/meta.json'
    if os.path.exists(f):
        m = json.load(open(f)); rows.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'), m.get('caught_by') or 'not yet confirmed'))
a, b = '<!-- seeded -->', '<!-- /seeded -->'
s = s[:s.index(a)] + a + '\n\n| bug | needs | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n\n' + s[s.index(b):]
open(V + '/DESIGN.md', 'w').write(s)
