"""Writes notes.json: the deciding method and the limits of each check."""
import json, os
N = {
'C01': ('simulated disk (SQLite VFS) with kills, torn writes and power loss at seeded operations, recovery checked against the full batch sequence',
        'Seeded sampling of crash points in real executions of search.py and SQLite on a simulated disk; trusts the disk model (a returned sync is durable) and samples configurations.'),
'C02': ('seeded search histories on a simulated disk with crashes and skewed random generators; every row read back is checked against an independent reference model of normal forms and the representation',
        'Samples configurations on 3 to 5 strands (6 in deep runs); trusts the independent reference model in sim/ref.py, which shares no code with peyl.'),
'C03': ('seeded search histories with skewed random generators; the reports of each length are compared with the braids the search then holds, evaluated by an independent reference model',
        'Samples configurations and lengths; what a search holds is read from the rows recorded with an unlimited save limit.'),
'C04': ('one seed run repeatedly under a simulator that varies hash seed, clock, ambient randomness, caches, disk latency and prior database; outputs and rows compared',
        'Samples configurations and environments; a dependence on something not perturbed here would be missed.'),
'C05': ('seeded search histories with skewed random generators, refined against a reference model of selection, descent and bucket limits',
        'Samples configurations with step size one; ties and random choices are judged as sets, not predicted.'),
'C06': ('several searches, readers and writers as threads under a seeded baton scheduler that switches at every storage operation, lock, sleep and print, with kills; reader views and final rows checked',
        'Samples schedules of up to three searches in one process; trusts the lock model of the simulated disk; threads of one process stand for processes.'),
'C07': ('fault injection at seeded storage operations, output writes and executed lines (I/O errors, disk full, short writes, locks, interrupts), then recovery and rerun',
        'Samples failure points and configurations; one fault process per run, persistent or one-off.'),
'C08': ('seeded operation histories on both trackers with allocation failures and interrupts injected, content checked against an independent reference after every step',
        'Samples histories with 3 to 5 strands; allocation failures are injected at numpy allocation calls of at least 4 kB made by /repo code.'),
'C09': ('many seeded simulated reservoirs per offer schedule, inclusion and pair frequencies tested against the uniform law with a total false-alarm probability below one in a million',
        'Statistical: biases below the resolution stated in the evidence are not detected.'),
'C10': ('seeded offer schedules on every retention policy; first-come and evict-minimum checked exactly against a model, the weighted policy statistically against its exact law',
        'Samples schedules and weights; the weighted policy is decided statistically, with the resolution stated in the evidence.'),
'C11': ('seeded histories of bootstraps, descents, discards and interrupted descents on both trackers with oversized buckets; content compared as multisets with an independent reference enumeration',
        'Samples histories on 3 to 5 strands; batch boundaries of 1000 and 10000 are crossed in some runs.'),
'C12': ('programs of braid operations run by threads under a seeded baton scheduler that switches at executed lines, with cold shared tables and injected interrupts; results checked by an independent action on curves',
        'Samples programs and interleavings at line granularity on 3 to 5 strands (6 in deep runs); the reference decides equality of braids exactly.'),
'C13': ('evaluation programs run by threads under a seeded baton scheduler over shared caches with injected interrupts; matrices compared with an independent construction of the representation',
        'Samples programs, interleavings at line granularity, representations and primes.'),
'C14': ('up to eight lazy enumerations interleaved by a seeded scheduler with abandonment and interrupts; each compared with an independent enumeration',
        'Samples interleavings and parameters of small size.'),
'C15': ('seeded transaction histories on a simulated disk with crashes, power loss, rollbacks, reopening in other interpreters and byte corruption; values compared with an independent reference',
        'Samples histories and corruptions; trusts the disk model.'),
'C16': ('seeded tracker histories followed by single-entry and single-bit damage of stored matrices; the verdict of validation compared with what was damaged',
        'Samples histories and damages; damage is done through the arrays the trackers hand out.'),
'C17': ('seeded configurations run under a step budget with jumping clocks and slow storage; lengths visited and termination checked',
        'Samples configurations on 3 to 6 strands; the bound on work is a fixed step budget far above normal.'),
'C18': ('sampling under simulated generators (recorded, adversarial, per-thread) interleaved by a seeded scheduler; results compared with the supplied generator as only source of chance',
        'Samples generators and interleavings; reachability of every normal form is decided statistically for small lengths.'),
'C19': ('programs of ring and matrix operations run by threads under a seeded baton scheduler that switches at executed lines, with cold caches, injected interrupts and allocation failures; every value compared with an independent model when made and again at the end',
        'Samples programs and interleavings at line granularity; coefficients up to 10^60 and about 70 terms.'),
'C20': ('programs of diagram operations run by threads under a seeded baton scheduler that switches at executed lines, with cold bases, injected interrupts and allocation failures; every value compared with an independent planar calculus',
        'Samples programs and interleavings at line granularity; up to about ten dots a side.'),
'C21': ('programs of permutation and partition operations run by threads under a seeded baton scheduler that switches at executed lines, with cold caches, injected interrupts and allocation failures; every value compared with an independent model',
        'Samples programs and interleavings at line granularity; up to eight points.'),
'C22': ('programs of evaluations run by threads sharing representation objects under a seeded baton scheduler that switches at executed lines, with injected interrupts and allocation failures; matrices compared with an independent construction that itself satisfies the relations',
        'Samples programs and interleavings at line granularity; two to five strands, monomial parameters, moduli up to 97.'),
'C23': ('programs of packed-matrix operations and long characteristic-zero evaluations run by threads under a seeded baton scheduler with injected interrupts and allocation failures; every array compared with exact integers, overflow required to be refused',
        'Samples programs and interleavings at line granularity.'),
}
json.dump({k: dict(technique=t, note=n) for k, (t, n) in N.items()}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'notes.json'), 'w'), indent=1)
