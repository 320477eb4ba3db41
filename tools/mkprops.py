"""Writes properties.jsonl (kept as a script so that the prose stays readable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))


S, B, K, G, J, M = 'search.py', 'peyl/braidsearch.py', 'peyl/bucketing.py', 'peyl/braid.py', 'peyl/jonesrep.py', 'peyl/polymat.py'

prop('C01', 'Crash-atomic saving of search results',
     'If a search that records to a database is killed, or the machine loses power, at any instant, the database afterwards opens without '
     'corruption and holds exactly what it held before the search plus an initial run of complete per-length batches, never a partial, '
     'repeated, altered or out-of-order batch. A batch whose saving has been announced on the output survives a kill of the process. '
     'Running the same search again on what is left completes and records every batch in full.',
     ['crash_points', 'fault_sequences', 'configurations'],
     'every storage operation of a search as a kill or power-loss point, every subset of unsynced writes that may survive, repeated crashes, every search configuration',
     'no existing test runs the search script or touches a database; crash points are never exercised',
     [S], [('explicit transaction per length, commit before announcing', 'search.py main()'), ('WAL journal and synchronous pragma', 'search.py DB_PRAGMAS')],
     [('good_braids', 'rows recorded so far', 'search.py DB_SCHEMA')], ['database contents after recovery', 'program output'])

prop('C02', 'Saved rows are truthful',
     'Every row a search records, at whatever point of whatever history it is read, describes the braid its text names: the text is a triple '
     '(strands, power, factors) that is a valid left Garside normal form, where factor i means the i-th permutation in lexicographic order, and '
     'the columns n, r, p, length and projlen are the strand count, the representation and modulus searched, the Garside length, and the number of '
     'degrees spanned by the matrix of that braid in the two-rowed representation (n-r, r) with coefficients modulo p.',
     ['histories', 'configurations', 'fault_sequences'],
     'every configuration (strands, representation, modulus up to the documented limit of 8192, bucket and step sizes, seed) and every point of every search history, including after reservoir replacement and after restarts',
     'tests check evaluation of a handful of braids, never what a search stores after its buckets have been replaced, descended and discarded',
     [S, B, G, M, 'peyl/tl.py'], [('bucket key computed from the image', 'braidsearch.Tracker.add_braids_images'), ('row assembled from bucket key and braid', 'search.py main()')],
     [('good_braids', 'rows', 'search.py')], ['database rows'])

prop('C03', 'Near-kernel reports are sound, complete and prompt',
     'At the start of each length a search reports on its output exactly the braids it then holds whose matrix is a single power of v (projlen 1), '
     'each with its true Garside length and normal form; no other braid is ever reported, and none of a length already processed. With the stop option the search ends with the first '
     'length that has a report, after saving that length; without the option, or with nothing to report, it carries on.',
     ['histories', 'configurations', 'fault_sequences'],
     'all configurations, seeds and random draws, and all search histories up to the step budget',
     'no test runs a search; the documented example is a single configuration',
     [S, B], [('near-kernel scan of all buckets each length', 'search.py main()'), ('should_halt', 'search.py main()')], (), ['program output', 'database rows'])

prop('C04', 'Searches are reproducible from arguments and seed',
     'Two runs of a search with the same arguments and seed print the same results (apart from timings) and record the same rows in the same order, whatever the clock, '
     'hash randomisation, the state of the process-wide random generators, earlier work in the process, disk latency or an existing database. '
     'Recording to a database, or changing how much is saved, does not change what is explored or reported.',
     ['schedules', 'configurations', 'histories'],
     'all configurations and seeds; all clocks, hash seeds, ambient random states, cache warmth and storage delays',
     'no test runs a search, and reproducibility relates two executions under different environments',
     [S, B, K], [('seeded random.Random handed to the tracker', 'search.py main()'), ('deterministic enumeration order', 'peyl/braid.py normal_forms')],
     (), ['program output', 'database rows'])

prop('C05', 'A search explores exactly what its limits allow',
     'With step size one, what a search holds at each length is, for every projlen, the distinct normal-form extensions by one letter of the braids it selected at the '
     'previous length: all of them when they fit the bucket size, otherwise a bucket-size subset of them, and at the bootstrap length all normal forms are offered. '
     'With a larger step size it is the same with the extensions by one up to that many letters of the braids selected at the lengths before. '
     'The braids carried forward, and those saved, are the whole buckets of lowest projlen for as long as their cumulative count stays within the respective limit.',
     ['histories', 'configurations', 'fault_sequences'],
     'all configurations, seeds and random draws, all lengths reached',
     'no test runs the search loop or a tracker descent',
     [S, B, G], [('cumulative-count selection', 'search.py main()'), ('nf_descendants / bootstrap_exhaustive', B), ('discarding processed lengths', 'search.py main()')],
     (), ['database rows with an unlimited save limit', 'program output'])

prop('C06', 'Concurrent searches and readers on one database are isolated',
     'Any number of searches may record to one database file while other connections read it: every reader at every moment sees for each search an initial run of complete '
     'per-length batches, each search that completes has all its rows present exactly once, and one that cannot record fails loudly with its earlier batches intact. '
     'A competing writer that holds the database for up to three seconds only delays a save, and a killed search never blocks the others.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'all interleavings of storage operations, lock requests, sleeps and prints of up to three searches plus readers and writers, kills of any of them',
     'no test opens a database, let alone two connections',
     [S], [('WAL mode', 'search.py DB_PRAGMAS'), ('write transaction per length', 'search.py main()')], (), ['database contents seen by concurrent readers', 'exit status'])

prop('C07', 'Storage and output failures are never silent',
     'If any storage operation or output write fails (I/O error, full disk, locked database) or the user interrupts a search, then either the search still records every batch, '
     'or it terminates with an error; it never announces a batch that is not recorded, and it leaves complete earlier batches and no partial one. '
     'Once the fault is gone nothing is left locked and the same search runs to completion.',
     ['fault_sequences', 'histories', 'configurations'],
     'every storage operation and output write as a failure point, one-off or persistent failures, interruption at every executed line',
     'tests inject no failures',
     [S], [('exceptions propagate, connection closed in finally', 'search.py'), ('commit before announcing', 'search.py main()')], (), ['program output', 'exit status', 'database contents'])

prop('C08', 'Tracker contents stay sound through any history',
     'After any history of insertions, descents, products and substrings of buckets (all products, all proper substrings of two factors or more), bootstraps and discards, including ones cut short by memory exhaustion, or by an interrupt between two insertions, and followed by more work, each bucket of either search tracker '
     'holds at most its capacity of braids, each in the bucket its own statistics name and each next to exactly its own projectivised matrix; repeated insertion does not duplicate a braid in a bucket of the '
     'search tracker that is not yet full. Counts, statistics and grouping by matrix report exactly that content, and every braid offered to a never-discarded bucket is counted.',
     ['histories', 'fault_sequences', 'configurations'],
     'all operation histories on both trackers, all bucket capacities, all allocation-failure points of at least 4 kB, all interrupt points between operations, all random draws',
     'tests of the trackers are absent; allocation failures are never injected',
     [B, K, M], [('parallel braid and image stores with shared index', 'braidsearch.Tracker.add_braids_images'), ('Bucket append/replace', 'bucketing.Bucket')],
     [('buckets', 'bucket key to contents', 'peyl/braidsearch.py, peyl/bucketing.py')], ['bucket contents', 'stats()'])

prop('C09', 'Uniform reservoirs are uniform',
     'When more braids are offered to a bucket than it can hold, the reservoir of either tracker keeps a uniformly random subset: every braid offered is kept with equal probability '
     'and so is every pair, whatever the order, the batching and the bucket size, and all chance comes from the random generator supplied.',
     ['inputs', 'histories'],
     'all offer sequences, batchings and capacities; probability over the supplied random generator',
     'a distributional property over the random generator; no test samples it',
     [B, K], [('Algorithm R replacement', 'braidsearch.Tracker.add_braids_images, bucketing.Tracker.add_braids_images')], (), ['bucket contents over many seeds'])

prop('C10', 'Retention policies keep what they promise',
     'In a full bucket the first-come policy holds exactly the first braids offered, in order; the evict-minimum policy holds braids of the greatest weights offered; '
     'and the weighted (A-Chao) policy keeps a braid arriving at a full bucket with probability proportional to its weight over all weight seen (equally for equal weights), whatever the order and batching of the offers. '
     'Each stored weight belongs to the stored braid beside it.',
     ['inputs', 'histories', 'fault_sequences'],
     'all weight functions, offer sequences, batchings, capacities, random draws',
     'no test uses any retention policy',
     [K], [('heap of (weight, index)', 'bucketing.Tracker.add_braids_images'), ('reservoir weight totals', 'bucketing.Bucket.show_reservoir')], (), ['bucket contents and weights'])

prop('C11', 'Bootstraps and descents are complete and exactly-once',
     'Bootstrapping a tracker offers every normal form (ordinary or dual) of each length up to the limit exactly once, and descending a bucket offers exactly once every normal-form extension '
     'of each braid in it, with that extension\'s own matrix, whatever the power of the Garside element in the braids, the bucket sizes and batch boundaries, and whatever was descended, '
     'interrupted or discarded before.',
     ['histories', 'inputs', 'fault_sequences', 'configurations'],
     'all bucket contents including braids with nonzero powers and mixed last letters, all orders of descents, discards and interrupted descents on one tracker, all lengths',
     'tests enumerate short normal forms only; they never descend a bucket',
     [B, K, G], [('nf_suffixes', 'peyl/braid.py NFBase'), ('suffix cache', 'bucketing.Tracker.nf_descendants'), ('batched', 'both trackers')],
     [('suffix_cache', 'memoised suffixes and matrices', 'bucketing.Tracker')], ['bucket contents', 'stats'])

prop('C12', 'Braid arithmetic is the braid group under any schedule',
     'Products, inverses, powers, substrings, normal-form construction from words, permutations and noncrossing partitions, and conversion between ordinary and dual normal forms always give the normal form of the '
     'exact braid, so that two results are equal if and only if they are the same braid, also when several threads compute at once, when shared tables are '
     'being built for the first time, and after an interrupted computation; what is no braid of the group at hand (letters that do not exist, factors out of normal form, pieces or partners of another group or kind) is refused.',
     ['schedules', 'programs', 'fault_sequences', 'histories'],
     'all interleavings of caller threads, all programs of operations on 2 to 5 strands (6 in deep runs), interrupts at any line',
     'tests run single-threaded on sampled words with warm tables',
     [G, 'peyl/permutations.py', 'peyl/noncrossing.py'], [('cached multiplication and normal-form tables', 'peyl/braid.py PermTable, NParTable'), ('comb normalisation', 'NFTable.product_normalised_factors')],
     [('NFTable', 'shared tables', 'peyl/braid.py')], ['returned braids'])

prop('C13', 'Matrix evaluation is the representation under any schedule',
     'Evaluating permutations, noncrossing partitions, braids (ordinary or dual) and words singly or in bulk, through either representation interface, always gives the matrix of the two-rowed representation (n-r, r), '
     'exactly for matrices over Laurent polynomials and up to a power of v for packed ones, modulo p if p is positive; results do not depend on what other threads, earlier evaluations, '
     'other representations or interrupted evaluations did. Braids of another group, letters that do not exist and batches not of one length and kind are refused.',
     ['schedules', 'histories', 'programs', 'fault_sequences', 'configurations'],
     'all interleavings of evaluating threads over several representations, n from 2 to 5 (6 in deep runs), every r, p zero or up to the documented limit of 8192, batches of mixed powers; p = 0 within the range of 64-bit integers',
     'tests evaluate few braids single-threaded; caches are shared process-wide',
     [J, B, M, 'peyl/tl.py', 'peyl/matrix.py'], [('per-representation caches of factors, powers, generators', 'peyl/jonesrep.py RepBase'), ('symmetric_table cache', B), ('projectivise/pack/mul', M)],
     [('factor caches', 'memoised matrices', 'peyl/jonesrep.py')], ['returned matrices'])

prop('C14', 'Lazy enumerations are complete and independent',
     'Every enumeration of normal forms (by length and power, ordinary and dual), extensions, noncrossing partitions and planar diagrams yields each item exactly once, all of them, agreeing with the corresponding count (exact at every length), '
     'regardless of how many enumerations are in progress, how their consumers interleave, and whether others are abandoned, interrupted or resumed.',
     ['schedules', 'histories', 'configurations'],
     'all interleavings of up to eight enumerations consumed by one or several threads with abandonment at any point',
     'tests run each enumeration alone to completion',
     [G, 'peyl/noncrossing.py', 'peyl/tl.py', 'peyl/permutations.py'], [('recursive generators', 'NFTable.normal_forms, NPar.all_of_size, generate_sequences')], (), ['yielded items'])

prop('C15', 'Braids stored through the SQLite adapters survive and stay valid',
     'With the SQLite adapters registered, any braid of either kind stored in a BRAID column reads back equal, from the same or another process, after commit, rollback of other work, crash and reopening, and the stored text '
     'keeps its meaning: factor i is the i-th permutation in lexicographic order (or the i-th noncrossing partition in enumeration order, which is lexicographic in the partners of its 2n dots). '
     'Stored bytes that were damaged are either rejected with an error or read back as a well-formed normal form.',
     ['histories', 'crash_points', 'inputs', 'fault_sequences'],
     'all transaction histories with crashes and power loss, all braids on 2 to 5 strands, single-byte corruptions of stored values that leave the strand count at most 5',
     'tests do not use the adapters',
     [G], [('adapt_braid / convert_braid', G), ('normal-form assertion on construction', 'NFBase.__post_init__')], (), ['rows read back'])

prop('C16', 'Self-validation detects damaged images',
     'The validation of either tracker confirms every bucket as sound on an undamaged tracker after any history, and after any single stored matrix entry has been changed it instead reports a damaged braid with its true and stored matrices.',
     ['histories', 'fault_sequences', 'configurations'],
     'all tracker histories with buckets of a single kind of normal form, all single-entry or single-bit changes of stored matrices of held braids',
     'no test calls validation or damages memory',
     [B, K], [('valiate_buckets recomputes every image', 'peyl/braidsearch.py, peyl/bucketing.py')], (), ['return value of validation'])

prop('C17', 'Searches make progress and end',
     'For every accepted argument combination with 3 to 6 strands, a modulus of at least two and at most 8192, buckets of at least one braid, including one-dimensional representations, limits so tight that nothing is selected, and any step size up to the bootstrap length, a search '
     'bootstraps, visits each length once in increasing order from the first unprocessed one, and finishes each in a bounded number of steps, without raising; with the stop option it ends as soon as a report is due.',
     ['configurations', 'schedules', 'fault_sequences'],
     'all accepted argument combinations, clocks that jump or stall, slow storage',
     'no test runs the script',
     [S, B], [('length loop', 'search.py main()'), ('empty selection handling', 'search.py main()')], (), ['program output', 'exit status'])

prop('C18', 'Sampling is driven only by the generator supplied',
     'Sampling braids with a supplied random generator yields braids of exactly the requested length in normal form with zero power, the same for the same generator state, independent of and without disturbing the process-wide generators, '
     'other threads or earlier samples (without one, every braid is drawn afresh); every normal form of that length can occur, and bulk sampling pairs each braid with its own matrix.',
     ['schedules', 'inputs', 'histories'],
     'all generator outputs including extreme ones, all interleavings of sampling threads with separate generators, lengths 0 to 8',
     'tests sample with one or two seeds and check only downstream identities',
     [G, B], [('rand.choice over follow set', 'NFTable.sample'), ('sample_braids_images', B)], (), ['sampled braids and images'])

# ---- algebra the rest stands on, and pure functions of their input
U = ', also when several threads share the values and the caches behind them, when caches are cold, and after computations that were interrupted or ran out of memory; no value changes after it has been returned.'
prop('C19', 'Laurent polynomial, polynomial and matrix algebra is exact under any schedule',
     'Sums, products, powers, exact divisions, substitution, cyclotomic, Chebyshev and related polynomials, traces, transposes, row operations and tests on Laurent polynomials, polynomials and matrices over them are exact, '
     'results are in the form that makes equal elements equal, and what is undefined (negative powers of non-units, inexact divisions, shapes and indices that do not fit) is refused' + U,
     ['inputs', 'schedules', 'fault_sequences'],
     'all elements (coefficients of any size), all interleavings of up to four threads at executed lines, interrupts and allocation failures at any line', 'tests sample few inputs and one thread',
     ['peyl/lpoly.py', 'peyl/poly.py', 'peyl/matrix.py'], [('coefficient tuples of Python integers', 'peyl/lpoly.py'), ('cached polynomials', 'peyl/poly.py')], (), ['values of every operation'])
prop('C20', 'Temperley-Lieb diagrams compose correctly under any schedule',
     'Composition (left factor on top, closed loops counted), tensor product, flip, trace, quotients, bases of all kinds and actions on cell modules of planar diagrams, diagrams with bubbles and their linear combinations agree with the planar '
     'calculus, and what does not compose, is not planar or is out of range is refused' + U,
     ['inputs', 'schedules', 'fault_sequences'],
     'all diagrams and combinations of moderate size, all interleavings of up to four threads at executed lines, interrupts and allocation failures at any line', 'tests cover small diagrams and one thread',
     ['peyl/tl.py'], [('diagram composition', 'peyl/tl.py compose()'), ('cached bases', 'peyl/tl.py cell_basis()')], (), ['values of every operation'])
prop('C21', 'Permutation and noncrossing-partition algebra is correct under any schedule',
     'Products, inverses, lengths, descents, ShortLex words, cycles and cycle types, construction from words, cycles and components, the correspondence between noncrossing partitions, permutations and matchings, left and right complements, '
     'words of partitions and enumerations are correct, and words that are not permutations, crossing or overlapping components and permutations of another kind are refused' + U,
     ['inputs', 'schedules', 'fault_sequences'],
     'all permutations and noncrossing partitions of moderate size, all interleavings of up to four threads at executed lines, interrupts and allocation failures at any line', 'tests cover small sizes and one thread',
     ['peyl/permutations.py', 'peyl/noncrossing.py'], [('one-line words', 'peyl/permutations.py'), ('crossingless matchings', 'peyl/noncrossing.py')], (), ['values of every operation'])
prop('C22', 'Representation matrices represent the braid group under any schedule',
     'The Lawrence-Krammer-Bigelow matrices, for every unit q and t and any modulus, and the cell-module matrices satisfy the braid relations and are those of the representation; the matrices given for inverse generators are the inverses; '
     'evaluating words, permutations, partitions and braids, as exact matrices or packed ones up to a power of v, gives the corresponding product, and words in letters that do not exist are refused' + U,
     ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'all n up to 5 (generators and short words up to 7), all units q and t, all moduli in use, shared representation objects, all interleavings at executed lines', 'tests check the braid relations of the generators of one example',
     [J], [('LKBRep.artin_gens_invs', J), ('caches of a representation object', 'peyl/jonesrep.py RepBase')], (), ['matrices returned'])
prop('C23', 'Packed matrix arithmetic is exact or refused',
     'Packed polynomial matrices multiply, pack, concatenate, pad, trim, projectivise and convert exactly, their degrees, lengths, ranks and the tables made of them are right and their arguments stay unchanged; a product with an entry that does not fit the integer type is '
     'refused instead of wrapping around, so evaluation of braids of any length over the integers is exact or refused' + U,
     ['inputs', 'schedules', 'fault_sequences'], 'all packed matrices of moderate size in 8, 32 and 64 bits, braids and words up to the lengths where 64 bits overflow, all interleavings at executed lines', 'tests use short braids and small entries',
     [M, B, J], [('polymat.mul', M), ('int64 coefficients', 'peyl/jonesrep.py polymat_dtype()')], (), ['arrays returned'])
prop('C24', 'Rendering shows the object rendered',
     'LaTeX, ASCII and tabular rendering of braids, matrices and diagrams faithfully describe their argument.',
     ['inputs'], 'all objects', 'tests do not compare renderings', ['peyl/show.py', 'peyl/tl.py'], [('render functions', 'peyl/show.py')])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
