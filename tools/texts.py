#!/usr/bin/env python3
"""Technique, bounds and trust of each check -> props.json (which check.py and manifest.py read)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'explicit-state exploration of the implementation against a reference model'
T = {
'C01': (S, 'F<=3 (thorough 4): every inclusion pattern of a clause x every sample, tiles 16/32/64/128, 1 and 3 jobs; all counting types and N up to 2^31-1 at F=2. F up to 144 (288): every single literal at every position; around 1, 2 and 3 tiles (byte: tile, bit: 64*tile features): every single literal and every pair of literals at word, tile and end positions. Conjunctions of up to hundreds of literals; up to 2050 clauses a label and 257 labels; all samples of 16 (18) features in one batch. Single literals of rows of up to 65537 (131073) features; up to 66002 clauses and 66000 labels.'),
'C02': (S, 'Every vector of clause outputs for up to 10 outputs, weighted and not, all thresholds that matter; 4..40000 clauses with extreme weights; 100..65538 labels, on each side of the powers of two, each label near one of them decided by its own sample; every permutation and prefix of small batches; evaluate on all (sample, label) batches of up to 2 (3) and all numbers of right answers up to 100 and at 40000 samples.'),
'C03': ('exhaustive enumeration of random draws of the implementation against a step relation (soundness and completeness)', 'F=1, N<=3 and F=2, N<=2: all states of a clause x samples x labels x single granted draws x trees of the first 5..10 integer draws; joint machines of 4 clauses, N=1, T<=3: all states, all grant patterns. Histories: all orders of up to 3 samples, up to 4 epochs, in one call and in several, all single granted draws. F up to 640, all counting types: coin certain / never. Single literals at tile boundaries up to F=8193 (16386), all tile sizes. Up to 1026 clauses a label, 300 labels, N and weights up to 2^31-1, T up to 10^6. Rows of up to 140000 features, 66000 labels, 33000 clauses a label.'),
'C04': ('exhaustive enumeration of random draws of the implementation against a step relation (soundness and completeness)', 'C=1: F=1, N<=3, F=2, N=1; C=2: F=1, N=1: all joint states x samples x responses, exact result sets over trees of 8..12 draws. C=3..5 under many draws with and without the normal approximation. Histories of up to 3 samples / 3 epochs against the composed step relation. F up to 640, all counting types; single literals at tile boundaries up to F=8193 (16386). Up to 1025 clauses, T up to 2^31-1, with and without the normal approximation. Rows of up to 140000 features, 66000 clauses.'),
'C05': (S, 'N in {1, 2, 63, 126..129, 255, 256, 32766..32769, 65536, 10^9, 2^31-1} x counting types x boosting x maximum weights 1, 2, 3, 2^31-1: states at and next to every limit, every feedback type, automata at all positions of F up to 70 (130); runs that saturate everything; complete reachable state graphs (up to 200000 states) of small machines.'),
'C06': (S, 'F = 1..20 (140) and around all multiples of 64 up to 1025: states at and next to the inclusion boundary, all feedback types, N in {1, 2, 3, 127}, all counting types; F<=2 (3): all states; whole lives (fit, train, copy, save, restore into three receivers). Steps and whole lives of machines with up to hundreds of clauses and labels. Rows of up to 66000 features, 34000 labels or clauses.'),
'C07': ('differential exploration of the full product of performance settings', 'F in 26 values from 1 to 513 and 8 from 1023 to 4097; tiles 16/32/64/128 x counting types auto/int8/int16/int32 x jobs 1, 2, 3, 4 (..16) x verbosity x sequences of fit / partial_fit / predict; N in {1, 3, 127, 128}; repeated and interleaved with another estimator; seeds 0, 1, 42, 2^31, 2^32-1. Up to 1032 clauses, dozens of labels, hundreds of samples and epochs, with up to 33 jobs.'),
'C08': ('stateless exploration of thread interleavings under a controlled scheduler', 'Every operation that evaluates clauses; teams of 1..8 workers, all start orders of up to 3..4 workers, every single preemption at every shared access of the library (two preemptions for single-sample queries), no two workers may touch one byte if one writes; also teams smaller than asked for. Machines of up to 260 clauses.'),
'C09': (S, 'All states reached by up to 6 (9) calls out of 15 (fits, partial fits, queries, refused calls) for each of the life configurations, then 6 fits compared with those of a fresh estimator. Fits after each of up to 2000 (8000) trainings of one life, on a copy and on the estimator itself.'),
'C10': (S, 'All states reached by up to 5 (8) calls; all splits a+b of up to 5 (9) epochs, in two calls and in single epochs; all targets at and beyond the limits. Calls for up to 1100 (4200) epochs against single ones.'),
'C11': (S, 'All states reached by up to 4 (6) calls; every kind of unacceptable argument of every method, alone and all one after another; complete state, status and later behaviour compared. Refused calls before each of 2000 (8000) trainings of one life.'),
'C12': ('exhaustive enumeration of inputs against the acceptance predicate', 'All X of up to 3 (4) rows of length 0..3 with all targets of up to 3 entries from the interesting values; all 256 values of a feature at every position for F up to 129; every single unused storage bit for F up to 130 (260) and around 512 and 1024; thresholds and numbers of labels up to 2^31-1. One unacceptable value, row or target at positions around powers of two in batches of up to 70000 rows and rows of 5000 features. Rows of up to 140000 features. Rows, targets and lengths that differ from acceptable ones by each power of two up to 2^17 (2^19). Bit rows owning up to 9 words more than they need, any of their bits set.'),
'C13': (S, 'All states reached by up to 2 (4) calls, three receivers each; all parameter values at their limits; automata and weights at the limits of each counting type; every generator position near block ends (and every 512th (64th) between) over more than two blocks. Saved and restored, and copied, before each of 600 (3000) trainings of one life. Machines of up to 520 clauses (or more), 300 labels and 2050 features. Rows of 66000 features, 17000 labels, 34000 clauses.'),
'C14': ('exploration of operation interleavings, and of access conflicts of all pairs of operations run by two threads', 'All sequences of up to 4..5 operations on two live estimators, including copying from states, moving and snapshots; all pairs of 60 operations on different estimators executed by two threads: no byte written by one is touched by the other. Another estimator trained between all of 1500 (5000) trainings of one life.'),
'C15': ('exhaustive enumeration of parameter values, pairs, products and one-byte edits of documents', 'All values of every parameter, all pairs of values of every two parameters, products over reduced domains, all argument orders of small sets, JSON types and limits, all one-byte edits of sample documents.'),
'C16': ('exhaustive enumeration of random draws of the implementation', 'F = 1..64 (300), and up to 1000, x 11 (19) values of s: counts for 32 (128) positions of the deciding draw over its range; every literal pickable; exact distributions by enumerating all draw sequences for F<=5 (6). F up to 140001: counts, and the share of each sixteenth of the row.'),
'C17': (S, 'Both generators and three other shapes: all positions of several blocks, all operation sequences of length 4 (6) on two generators; all ranges up to 300 (3000); all 2^32 raw values of the float conversion; saved and restored at every block edge and every 331st (5th) position.'),
'C18': ('exhaustive enumeration of scores and draws of the implementation', 'T = 1..8 (24): all pairs of raw label scores in [-T-1, T+1], 2 and 3 labels, the decision point of each draw located exactly; T up to 2^31-1 with sums far outside. Up to 1028 clauses and 257 labels.'),
'C19': ('exhaustive enumeration of errors and draws of the implementation', 'T = 1..8 (40) and 5 large ones, all errors of both signs, 15 losses, 1..200 clauses; all 65536 outcomes of the deciding draw of the normal approximation for N in {1, 10, 40, 100}. Up to 2050 clauses, thresholds at the powers of two up to 2^30.'),
'C20': (S, 'Bit vectors of 4 block types up to 200 (400) bits: every operation on every element; matrices of 9 types, up to 4 rows x boundary column counts: every element, rows, all operation sequences on two containers of length 3..4; address sanitizer. The storage asked for by matrices of all shapes up to 2^31 x 2^31 around powers of two, and two matrices of more than 4 GB for real. Matrices of up to 1030 (66000) rows or 66000 (140000) columns and vectors of up to 70001 bits: the elements next to powers of two.'),
'C21': (S, 'All states reached by up to 3 (4) calls, all sequences of 2 queries, 3 (4) after one call; rotations of batches of 24 for F up to 130. Queries before each of 1200 (5000) trainings of one life, and hundreds (thousands) of them at a time. Batches of up to 100000 samples against single queries.'),
'C22': (S, 'Aligned arrays of 8 kinds at every offset modulo the alignment, all pairs of offsets for copies; all sequences of 3 (4) vector operations for 6 element types against std::vector; bytes in use compared; address sanitizer.'),
'C23': ('explicit-state exploration of call sequences of the sanitized implementation', 'F in 0..513 at all word boundaries x labels x clauses x tiles x jobs; extremes of every parameter; states at every limit; all sequences of 2 (4) calls of the life configurations; every factory argument at its limits. Address, undefined-behaviour, float-conversion and alignment sanitizers, libstdc++ assertions. Up to 2052 clauses, 300 labels, 65537 samples or features, 300 jobs, 5000 epochs.'),
'C24': ('exhaustive enumeration of shapes', 'Products of F, highest label, requested labels, clauses, N (at the limits of each width), counting type, weights and epochs; all call sequences of length 2 (3) for shape changes; distribution of start values. Up to 4000 clauses, hundreds of labels. Up to 66000 features and labels, 132000 clauses.'),
'C25': ('complete state graphs of small machines, backward reachability', 'Classifiers: F=1, N<=2, weights up to 3 and F=2, N=1, all concepts; regressors: 1 clause F<=2, N<=3, 2 clauses F=2 N=1, weighted; all states.'),
'C26': ('exhaustive enumeration of random draws of the implementation', '1..4 (5) samples, 2, 3 and 5 labels: all outcomes of the shuffling and label draws (trees of up to 12..20 draws), 3 epochs, duplicates, 2 jobs; 1..70 (200) samples by counting; regressors of 1..256 samples. Up to 100003 samples and 100000 epochs. Each of 2..2049 labels (also 32769 and 65537, thorough more) contrasted with given ones, counted.'),
'C27': ('lockstep exploration of both implementations', 'F=1: all joint states of classifiers N<=2 (N=2: 2 of 16 parts, thorough all) and regressors of 1, 2 and 4 clauses; F up to 200: every single-literal clause and further shapes; single literals at tile boundaries up to F=8193 (16386); counting types, tiles and jobs. Up to hundreds of clauses, 260 labels, weights of up to 2^31-1. Up to 66000 features and clauses, 34000 labels. Bit rows owning up to 64 words more than they need.'),
'C28': ('exhaustive enumeration of torn and damaged documents', 'Five documents of each estimator (20, of about 200 kB each) read into two receivers: every single cut outside the number arrays longer than 400 bytes, and inside them near their ends and at every 1009th (53rd) byte; every single member and element removed, repeated, replaced by null and by text (inside arrays of more than 40 elements the first and last three and every 613th (23rd)); all foreign documents.'),
'C29': ('exhaustive enumeration of allocation failures (fault injection) in every call from every state of a life', 'Every allocation of each of 29 calls (fit, partial_fit, queries, refused calls, copying, moving, saving, restoring) failing alone and together with all later ones, in 4 situations of a life (unfitted, fitted, fitted anew, trained on) for 4 (all) life configurations; then another call, with and without all queries before (all of these); creation from arguments and documents; requests of more than 64 MB refused, for numbers of labels and clauses around the powers of two up to 2^31. (Pairs of failures in successive calls.) Leaks counted in blocks; address sanitizer.'),
'C30': (S, 'All states reached by up to 3 (4) calls for each life configuration, quiet and verbose, then each of about 60 calls; all sequences of 4 (5) calls on a quiet and a verbose estimator in turn; all values of the parameters logged, counting types x numbers of states at the limits, losses x C1 x weights, with up to 300 features and 11 labels; up to 65539 (1000001) epochs; creation from 19 documents.'),
'C31': ('exhaustive enumeration of operation sequences against a reference model', 'All programs of up to 4 (5) operations out of 16 on results of copyable values, of up to 6 (8) on results of values that can only be moved, from every way of making one, 4 values; payloads smaller, larger, aligned and trivial on either side; mapping to other types, comparison, and functions that throw. Address sanitizer and counted lives.'),
'C32': ('explicit-state exploration of the implementation against a reference model', 'All pairs of up to 400 (1500) states reached by up to 3 (4) calls of 7, each in up to three ways (copied, restored, assigned); every single change and swap of automata, weights and parameters of shapes up to 5 features, entries near the ends and powers of two of rows of up to 70000 features and 40000 clauses, all counting types; 48 shapes with equal entries; both generators at every position of two periods, 64 seeds.'),
}
NOTE = {
'C29': 'Allocations made inside the vendored JSON library are not failed: its destructors allocate, which nothing built on it can survive. Trusts the allocator in harness/alloc.hpp and the compiler; beyond the bounds nothing is claimed.',
'C08': 'Interleavings are explored at the granularity of instrumented memory accesses of the library (plus libc copies); sequential consistency. Trusts the scheduler runtime in harness/tsrt.cpp, itself checked on a racy and a race-free region in every run.',
'C14': 'Independence of every pair of operations is decided by comparing the bytes they access; operations that share no written byte commute under every schedule. Trusts the recorder in harness/tsrt.cpp, itself checked in every run.',
}
P = json.load(open(V + '/props.json'))
for i, (t, b) in T.items():
    P[i]['technique'] = t; P[i]['bounds'] = b + ' (In parentheses: thorough tier.)' if '(' in b else b
    P[i]['note'] = NOTE.get(i, 'Every execution within the bounds is run on the library built from the working tree; trusts the reference model in harness/, the compiler and the C++ runtime. Beyond the bounds nothing is claimed.')
P = {k: P[k] for k in sorted(P)}
open(V + '/props.json', 'w').write('{\n' + ',\n'.join(' %s: %s' % (json.dumps(k), json.dumps(v)) for k, v in P.items()) + '\n}\n')
