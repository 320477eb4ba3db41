"""Writes known_findings.txt; commits are looked up by subject in /repo."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
subj = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}
FIXED = [
 ('C17', 'fix: JonesSummand.dimension for the one-dimensional representation r = 0', 'search.py 4 0 2 raised ValueError from math.comb(n, -1): every search with r = 0 ended at once'),
 ('C11', 'fix: nf_suffixes must not repeat the Garside power of the braid', 'descending a bucket holding a braid with nonzero Garside power p gave children with power 2p (and images off by Delta^p); the suffix cache then spread this to other braids'),
 ('C08', 'fix: allocate a new bucket\'s images before registering the bucket', 'a MemoryError while a new bucket is created left a bucket registered without images; the next stats/insertion raised KeyError'),
 ('C16', 'fix: valiate_buckets of the search tracker evaluates with its own representation', 'valiate_buckets() of the search tracker always raised AttributeError'),
 ('C13', 'fix: projectivise inverse generators in polymat_artin_gens_invs', 'polymat_evaluate / polymat_evaluate_artin_word always raised ValueError'),
 ('C13', 'fix: reduce powers of the dual Garside element mod p when evaluating', 'JonesCellRep(5, 1, 2).polymat_evaluate_braid(DGNF(5, -1, ())) returned coefficients not reduced mod 2, spread over 7 degrees instead of 5'),
 ('C14', 'fix: all_of_garside_length honours its power argument', 'BraidGroup(4).all_of_garside_length(1, power=3) yielded braids of power 0'),
 ('C10', 'fix: A-Chao acceptance probability scales with the reservoir size', 'with equal weights and capacity k the A-Chao policy accepted the i-th braid with probability 1/i instead of k/i, so early braids were kept far too often'),
 ('C10', 'fix: A-Chao must not divide by zero while all weights seen are zero', 'A-Chao raised ZeroDivisionError when a full bucket had only seen weights of zero'),
 ('C15', 'fix: factors outside the divisor table are not a normal form', 'GNF(4, 0, (99,)) and GNF(4, 0, (-2,)) were accepted, so one damaged stored byte read back as an ill-formed braid'),
 ('C15', 'fix: convert_braid rejects stored data with non-integer fields', 'stored text damaged to "(4,.0, (2,))" read back as a braid with a float power'),
 ('C12', 'fix: generators and dual tables on one and two strands', 'BraidGroup(2).gens(), GNF.artin_gens(2), DGNF.bkl_gens(2) raised AssertionError (the generator of B_2 is the Garside element), NParTable.create(1) raised IndexError'),
 ('C19', 'fix: Matrix.is_symmetric compares all entries, not only the diagonal', 'Matrix.from_rows([[1, 2], [3, 4]]).is_symmetric() was True'),
 ('C19', 'fix: Matrix.row checks its argument against the number of rows', 'row(2) of a 3 x 2 matrix was refused and row(2) of a 2 x 3 matrix returned an empty row'),
 ('C19', 'fix: subtracting something else from a Matrix raises instead of giving None', 'Matrix.from_rows([[1]]) - 1 was None'),
 ('C20', 'fix: TLExtDiag composition puts the left factor on top, as documented', 'products of TLExtDiag were composed the wrong way up, or refused when the sides differed'),
 ('C20', 'fix: TLMor.flip keeps v when told not to twist', 'TLMor.flip(twist_v=False) still replaced v by its inverse'),
 ('C20', 'fix: JonesRep includes the last cell module', 'JonesRep(n).cells for even n lacked the cell module with no through-strands'),
 ('C21', 'fix: SymmetricGroup.from_cycle takes cycles shorter than n', 'SymmetricGroup(4).from_cycle([0, 1]) raised IndexError'),
 ('C21', 'fix: SymmetricGroup.from_cycles starts from the identity element', 'SymmetricGroup(3).from_cycles(...) always raised TypeError'),
 ('C21', 'fix: Permutation and SymmetricGroup check their arguments', 'Permutation((0, 0)) and SymmetricGroup(-1) were accepted: the check was misspelt __post__init__'),
 ('C21', 'fix: NPar checks that its involution is a crossingless matching', 'NPar(2, (1, 0, 3, 3)) was accepted: the check was misspelt __post__init__'),
 ('C21', 'fix: NPar.from_components reads its components once', 'NPar.from_components(3, iter([[0, 1]])) gave the finest partition'),
 ('C22', 'fix: LKBRep returns the inverses of the generators as their inverses', 'LKBRep.artin_gens_invs returned the generators again as their inverses'),
 ('C22', 'fix: polymat_artin_gens_invs handles generators with negative powers', 'polymat evaluation of a word in LKBRep(3, 0, v^-1, v) raised ValueError'),
 ('C23', 'fix: polymat.mul raises OverflowError instead of wrapping around silently', 'JonesCellRep(3, 1, 0) evaluated (s0 s1^-1)^60 to wrong entries without notice'),
 ('C08', 'fix: Tracker.substrings tries all proper substrings', 'Tracker.substrings of a bucket of braids of length 4 offered nothing: substrings at the start or near the end were left out'),
 ('C13', 'fix: refuse words in generators with negative indices instead of wrapping around', 'GNF.from_artin_word(4, [-1]), LKBRep(4).evaluate_artin_word([(-1, 1)]) took the last generator for a letter that does not exist'),
 ('C13', 'fix: do not evaluate braids on another number of strands by the wrong tables', 'JonesCellRep(4, 1, 0).polymat_evaluate_braids_of_same_length of a braid on 3 strands gave the matrix of an unrelated braid on 4'),
 ('C11', 'fix: descend buckets of powers of the Garside element in the bucketing tracker', 'bucketing.Tracker.nf_descendants of a bucket holding GNF(4, 1, ()) raised IndexError'),
]
with open(os.path.join(HERE, 'known_findings.txt'), 'w') as f:
    f.write('# One line per genuine defect of the original code. "fixed:" lines suppress nothing; a known finding would be a JSON line with property, status=finding, class, key, what.\n')
    for prop, s, what in FIXED:
        f.write(f'fixed: property={prop} {subj[s]} {what}\n')
