# ---------------------------------------------------------------- binary vectors
prop('B01', 'All views of a binary vector describe the same bit sequence',
 '''A finite binary vector built from a bit list, bit string, integer or set of positions, with or without a requested
 length or minimal length, is one fixed little-endian bit sequence of exactly the requested length. Its bits, length,
 integer value, set of true positions, weight, number of changes, complement, reversal, partition of positions by bit,
 plain and grouped strings and required length all describe that sequence. Two vectors are equal, and print and hash
 alike, exactly when their sequences are the same, and evaluating the printed form gives the vector back.''',
 ['inputs', 'histories'], '''every bit sequence (lengths 0 to several hundred, integers of any magnitude), every constructor,
 every order in which the lazily computed views are read''',
 '''The tests check a handful of short vectors; integer values near powers of two above 2**47, sequences longer than 16
 bits and mixed orders of reading the cached views are not reached.''',
 ['binv/__init__.py', 'binv/a/binary_length/__init__.py', 'binv/metributes', 'binv/methods/str'],
 [('constructor case split', 'binv/__init__.py'), ('cached views', 'binv/metributes/*'), ('printed form', 'binv/methods/str')],
 ['constructor return', 'every attribute read'], [('vector', 'list of bools, lowest place first')])

prop('B02', 'Binary-vector operators are position-wise Boolean logic',
 '''For equally long binary vectors, and, or, exclusive or and complement act position by position, concatenation,
 slicing, indexing and single-bit flipping give the expected sequence, and the strict bitwise comparison is the strict
 subset order on true positions. The comparisons smaller, greater, smaller-or-equal and greater-or-equal form one total
 order, the lexicographic order of the bit sequences, consistent with equality. No operation changes its operands.''',
 ['inputs', 'histories'], 'every tuple of operands (random, nested, equal, complementary, empty) and every expression tree over them',
 'Tests check single examples of each operator, never laws over all operands or chains of operations.',
 ['binv/__init__.py', 'binv/methods'],
 [('bitwise operators', 'binv/methods/bitwise'), ('comparisons', 'binv/methods/comparisons'), ('bit flip and slicing', 'binv/__init__.py')],
 ['operator return values'])

# ---------------------------------------------------------------- permutations
prop('P01', 'Permutations form a group acting on the natural numbers',
 '''For finite permutations, and for periodic permutations of any period lengths, the product maps every natural number as
 the right factor followed by the left, the inverse undoes the permutation everywhere, and an integer power (positive,
 zero or negative) is the repeated product. The order is the least positive power that is neutral, and the parity is the
 parity of the number of inversions. Mixing a non-neutral finite with a non-neutral periodic permutation is refused,
 while the neutral permutation combines with both.''',
 ['inputs', 'histories'], 'all pairs and words of permutations, finite up to 40 elements and periodic with arbitrary (also coprime) periods, evaluated far beyond the common period',
 'Tests multiply a few fixed permutations; associativity, period blow-up and reduction, and long words are never checked.',
 ['perm/__init__.py', 'perm/a/broaden_moved', 'perm/a/reduce_period', 'perm/metributes'],
 [('product and power', 'perm/__init__.py'), ('period handling', 'perm/a/reduce_period'), ('inverse, order, parity', 'perm/metributes')],
 ['product/power/inverse return values, read pointwise'], [('mapping, perilen', 'moved points of one period')])

prop('P02', 'Every description of a permutation denotes the same function',
 '''A permutation given as a sequence, as disjoint cycles or as a mapping, with or without a period length that need not be minimal,
 denotes one function on the natural numbers; two permutations are equal, and print and hash alike, exactly when the
 functions are equal. Entries, slices, sequences of every admissible length, the mapping, the set of moved points, the
 reported length and minimal period, the cycles (also spread over several periods), the cycle partition and the action
 on vectors all describe that function. Evaluating the printed form gives the permutation back.''',
 ['inputs', 'histories'], 'every permutation up to 40 points / period up to 48, all equivalent descriptions, inadmissible lengths included',
 'Tests use single descriptions; redundant periods, differently ordered or rotated cycles and cross-description equality over all inputs are not covered.',
 ['perm/__init__.py', 'perm/a/reduce_period', 'perm/metributes/cycles.py', 'perm/metributes/cycle_partition'],
 [('constructor normalisation', 'perm/__init__.py'), ('minimal period', 'perm/a/reduce_period'), ('cycles', 'perm/metributes/cycles.py')],
 ['constructor return', 'attribute reads'])

prop('P03', 'Permutation ranks and inversion data are faithful bijections',
 '''The rank of a finite permutation among the permutations in reverse colexicographic order, and its rank among the permutations
 of its own length in lexicographic order, are the true positions, and turning a number into a permutation and back is
 the identity, consistently with factorial-base digits. The inversion set consists of exactly the inverted pairs of places,
 left and right inversion counts and the inversion vector count them per place or per value, and each of these
 (counts or inversion sets) reconstructs the permutation.''',
 ['inputs'], 'every permutation up to 8 elements by rank in stripes, random ones up to 40 elements, every natural number as rank up to 10**60',
 'Tests pin a few ranks and vectors; bijectivity and the round trips over all permutations are not checked.',
 ['perm/metributes/ranks', 'perm/metributes/inversion_set', 'perm/a/inversion_related_vectors', 'a/int_to_perm', 'a/int_to_factoradic', 'a/rev_colex_perms'],
 [('ranks', 'perm/metributes/ranks'), ('inversion vectors', 'perm/a/inversion_related_vectors'), ('unranking', 'a/int_to_perm')],
 ['rank reads', 'helper return values'])

prop('P04', 'Schoute permutations represent (signed) permutations of variables',
 '''The Schoute permutation of a finite permutation or signed permutation permutes (and for negated values flips) the binary digits of every natural number
 in the way the permutation acts on places, the map respects products and inverses, and a signed permutation
 is recovered exactly from its Schoute permutation. The coset generator yields, each exactly once, the reverse-colexicographic ranks of the permutations
 that map a given set of places onto a given set of values.''',
 ['inputs'], 'all signed permutations up to 4 variables in stripes, random ones up to 7',
 'Tests compare a few printed examples.',
 ['perm/metributes/schoute_perm', 'sig_perm/a/schoute_to_finite_inverse', 'a/schoute_coset_gen'],
 [('schoute permutation', 'perm/metributes/schoute_perm'), ('recovery', 'sig_perm/a/schoute_to_finite_inverse'), ('coset generator', 'a/schoute_coset_gen')],
 ['metribute reads', 'generator output'])

# ---------------------------------------------------------------- signed permutations
prop('S01', 'Every description of a signed permutation denotes the same object',
 '''A signed permutation given by negated values or negated keys (bits, set or index) with a permutation (sequence, object or
 rank), by an index pair, by a signed sequence, by a signed matrix or by its Schoute permutation, with any trailing padding,
 denotes one signed map; objects are equal, and print and hash alike, exactly when the maps are. Minimal and extended
 sequences, matrices, key and value negation indices, permutation index and index pair all describe that map and
 rebuild it.''',
 ['inputs', 'histories'], 'all signed permutations up to 4 elements in stripes, random ones up to 10, all constructors incl. redundant padding',
 'Tests construct a few objects; agreement of all ten descriptions over all inputs is not checked.',
 ['sig_perm/__init__.py', 'sig_perm/a', 'sig_perm/metributes'],
 [('constructor', 'sig_perm/__init__.py'), ('matrix/sequence conversion', 'sig_perm/a'), ('indices', 'sig_perm/metributes/_indices')],
 ['constructor return', 'view reads'])

prop('S02', 'Signed permutations form a group acting on vectors and numbers',
 '''The product of signed permutations of any sizes is composition of signed maps (equivalently the product of the signed matrices),
 it is associative, the inverse is two-sided, and integer powers are repeated products. Applying a signed permutation to a
 vector moves each entry to the image of its place and negates it where the value is negated; applying it to a natural number
 does the same to its binary digits. Applying a product is applying the right factor and then the left.''',
 ['inputs', 'histories'], 'all pairs and random words of signed permutations up to 8 elements, vectors and numbers longer than the permutation',
 'Tests show a few products and applications; group laws and the action law are not checked, powers not at all.',
 ['sig_perm/__init__.py', 'sig_perm/metributes/inverse.py'],
 [('product', 'sig_perm/__init__.py'), ('inverse', 'sig_perm/metributes/inverse.py'), ('actions', 'sig_perm/__init__.py')],
 ['product/inverse/power/apply return values'])

# ---------------------------------------------------------------- Walsh permutations
prop('W01', 'Walsh permutations are exactly the invertible binary linear maps',
 '''A Walsh permutation given by its vector, its binary matrix or the permutation itself is the periodic permutation
 that maps the binary digits of each number by the matrix modulo two, and all constructions of the same map are equal and
 print alike. Exactly the matrices invertible modulo two and exactly the permutations that are linear are accepted; all others are
 refused with the documented errors. Degree, period, vectors, transposed vectors and matrices of every admissible size, sequences, cycles,
 determinant, complement pattern and complement distance, and the views shared with other permutations (inversions, parity, slices, Schoute permutation) describe that map.''',
 ['inputs'], 'all binary matrices up to degree 3, random (also nearly singular) ones up to degree 9, all permutations of 4 and random ones of 8 and 16 elements',
 'Tests use examples of degree up to 5; rejection is tested for single inputs.',
 ['walsh_perm/__init__.py', 'walsh_perm/a', 'walsh_perm/methods', 'walsh_perm/metributes', 'a/walsh_function_to_index'],
 [('constructor', 'walsh_perm/__init__.py'), ('verification in the mapping', 'walsh_perm/metributes/mapping'), ('shrinking', 'walsh_perm/a/shrink_matrix')],
 ['constructor return or exception', 'view reads'])

prop('W02', 'Walsh permutations multiply, invert and transpose like matrices',
 '''For Walsh permutations of any degrees, product, inverse, integer powers and transpose correspond to product, inverse, powers and transpose of
 the matrices modulo two, and all results are Walsh permutations that also act pointwise as the product, inverse and
 power of the permutations. Products of a Walsh permutation with an ordinary periodic permutation are pointwise composition.''',
 ['inputs', 'histories'], 'random words over general linear groups of mixed degree up to 8, with ill-conditioned integer matrices',
 'Tests multiply a few small examples; inverses computed through floating point are not stressed.',
 ['walsh_perm/__init__.py', 'walsh_perm/metributes/inverse', 'walsh_perm/metributes/transpose'],
 [('product, power', 'walsh_perm/__init__.py'), ('inverse', 'walsh_perm/metributes/inverse'), ('transpose', 'walsh_perm/metributes/transpose')],
 ['product/inverse/power/transpose return values'])

# ---------------------------------------------------------------- set partitions
prop('T01', 'A set partition is the closure of the merges and refinements applied',
 '''After any sequence of pair merges, group merges and block refinements on a set partition over the naturals, the integers or a finite
 domain, the non-singleton blocks are exactly those of the resulting equivalence relation, in canonical sorted order. Block of an element,
 same-block tests, the pairs, the integer encoding the pairs (for natural elements), the singletons, all listings of blocks with singletons (by length, range or elements),
 the length and the printed form describe that relation at every moment, whatever was read before. Equality of two partitions on the same
 domain is equality of the relations.''',
 ['histories', 'inputs'], 'all interleavings of mutations and reads in random histories up to 40 steps over N, Z and finite domains',
 'Tests read derived data once per object, before or after a short fixed history; interleaved reads and writes are not covered.',
 ['set_part/__init__.py', 'set_part/methods', 'set_part/metributes'],
 [('merging', 'set_part/methods/merge_pair'), ('refining', 'set_part/methods/refine_block'), ('derived data', 'set_part/metributes')],
 ['after every mutation'], [('blocks', 'sorted non-singleton blocks'), ('non_singleton_to_block_index', 'element to block')])

prop('T02', 'Set partitions of one domain form the partition lattice',
 '''The meet of two set partitions relates exactly the pairs related in both, and the join is the finest partition coarser than both,
 on the domain of the operands. The order is refinement, strict order is refinement without equality, and both agree
 with meet and join. Combining or comparing partitions of different domains is refused.''',
 ['inputs', 'histories'], 'random and structured triples of partitions over N, Z and finite domains up to 40 elements, incl. long chains of overlapping blocks',
 'Tests check a few pairs over the naturals; lattice laws and the other domains are not covered.',
 ['set_part/__init__.py', 'set_part/methods/meet_and_join'],
 [('meet', 'set_part/methods/meet_and_join/meet.py'), ('join', 'set_part/methods/meet_and_join/join'), ('order', 'set_part/__init__.py')],
 ['meet/join/comparison return values'])

prop('T03', 'Block labels follow blocks through merges and refinements',
 '''A label given to a block or to an element belongs to the whole block and stays with it when the block grows; giving an element
 the label of another block merges the two blocks. No block ever has two labels and no label two blocks: contradicting labels, and pair merges of
 two differently labelled blocks, are refused and leave the partition and all labels as they were. Refining a block removes its label and
 sets the new ones; looking up labels by block or element and blocks by label is consistent at every moment.''',
 ['histories', 'fault_sequences'], 'random histories of labelling, merging, refining and refused operations up to 40 steps',
 'Tests follow two fixed histories.',
 ['set_part/methods/block_labels', 'set_part/methods/merge_pair', 'set_part/methods/merge_many', 'set_part/methods/refine_block'],
 [('label bookkeeping', 'set_part/methods/block_labels'), ('merge of labels', 'set_part/methods/block_labels')],
 ['after every operation, accepted or refused'])

prop('C01', 'Equality/complement constraints stay transitively closed and consistent',
 '''After any history of declaring pairs of elements equal or complementary, two elements are reported equal (complementary) exactly when that follows
 from the declarations, an element being always equal to itself. A declaration that contradicts earlier ones is refused with the documented error and changes nothing.
 Blocks, representatives, complementary representatives, the set of all complement pairs, related blocks, affected elements, length and printed form describe
 the closed relation, and objects with the same relation are equal however it was declared (also when given at construction).''',
 ['histories', 'fault_sequences'], 'all declaration histories up to 30 steps over random element sets incl. self-pairs, repetitions and contradictions, negative elements included',
 'Tests run three fixed histories; the four merge cases times orders of representatives are not covered.',
 ['set_part_comp'],
 [('declaring equality', 'set_part_comp/methods/set_equal'), ('declaring complements', 'set_part_comp/methods/set_comp'), ('queries', 'set_part_comp/__init__.py')],
 ['after every declaration'], [('comp_pairs', 'pairs of representatives of complementary blocks')])

prop('C02', 'Constraint sets, their Boolean functions and integer matching agree',
 '''For a set of equality and complement constraints on natural numbers, an integer matches the constraints exactly when its binary
 digits satisfy all of them (missing digits being zero), the Boolean function of the constraints is true exactly for the matching
 assignments, and has exactly the constrained elements as its arguments.''',
 ['inputs', 'histories'], 'random consistent constraint sets over up to 10 places, all assignments and larger integers',
 'Tests check one or two functions.',
 ['set_part_comp/methods/boolf', 'set_part_comp/methods/int_matches'],
 [('Boolean function', 'set_part_comp/methods/boolf'), ('integer matching', 'set_part_comp/methods/int_matches')],
 ['return values'])

# ---------------------------------------------------------------- Boolean functions
prop('F01', 'A Boolean function is canonical however it is built',
 '''A Boolean function built from a truth table (bits, string, integer with arity, with redundant arguments, arguments ascending or sorted by the documented permutation of bits), single atom,
 set of true places, conjunction, disjunction, parity or iterated equivalence of signed atoms, Zhegalkin index or Walsh spectrum is the function specified, reduced to the arguments it really
 depends on. Two functions are equal, hash and print alike exactly when they are the same function of the same arguments, and evaluating the printed form gives the function back.
 Truth tables requested for any sufficient arity or any list of arguments, the true places, root function, arity, adicity, valency and complement describe that function, and construction without reduction keeps table and arguments and tells whether some are redundant.''',
 ['inputs', 'histories'], 'random functions up to 6 arguments over sparse argument sets, with redundant and permuted arguments, all constructors',
 'Tests build a few functions per constructor; canonical identity across constructors and large arities is not checked.',
 ['boolf/__init__.py', 'boolf/subinit_methods', 'boolf/a/deflate', 'boolf/a/reorder_if_atomvals_not_asc', 'boolf/methods/tt', 'boolf/methods/str'],
 [('constructors', 'boolf/subinit_methods'), ('removal of redundant arguments', 'boolf/a/deflate'), ('truth table expansion', 'boolf/methods/tt')],
 ['constructor return', 'every internally created function (class-wide hook)'], [('root, atomvals', 'reduced truth table and its arguments')])

prop('F02', 'Boolean functions form a Boolean algebra with implication order',
 '''And, or, exclusive or and complement of Boolean functions with arbitrary, different argument sets are pointwise on every assignment, and results are again canonical (redundant arguments disappear).
 The bitwise comparisons are implication: smaller-or-equal holds exactly when the first implies the second, smaller excludes equality, and greater variants are the mirrored ones.''',
 ['inputs', 'histories'], 'random pairs and expression trees over sparse argument sets up to 8 arguments in total',
 'Tests check few operand pairs; laws, mixed argument sets and cancellation of arguments are not covered.',
 ['boolf/methods/bitwise', 'boolf/metributes/complement'],
 [('bitwise operators and comparisons', 'boolf/methods/bitwise')],
 ['operator return values', 'class-wide hook on the operators'])

prop('F03', 'Evaluating and renaming arguments commutes with the truth table',
 '''The value of a Boolean function for given argument values, and the list of values for given argument patterns, is the truth table entry. Applying a function to a list of different signed arguments substitutes and negates them
 (repeated arguments are refused), and applying a signed permutation renames and negates the arguments; both give the function whose value at every assignment is the value of the original at the transformed assignment,
 and successive applications compose like the product.''',
 ['inputs', 'histories'], 'random functions up to 5 arguments, signed argument lists (also with repetitions, to be refused), signed permutations up to 8 elements',
 'Tests apply a few permutations to a few functions.',
 ['boolf/methods/vals_apply', 'boolf/a/_mod_tt', 'boolf/a/spread_sigperm_to_sigvar'],
 [('apply', 'boolf/methods/vals_apply'), ('truth table transformations', 'boolf/a/_mod_tt')],
 ['return values'])

prop('F04', 'Families, factions and clans are exactly the group orbits',
 '''For every Boolean function and every sufficient arity, the family, faction and clan are exactly the sets of functions obtained from it by negating, permuting, and negating and permuting its
 arguments, each function listed once with a key of the documented form that actually produces it. The partitions of a clan into factions and families, the splinters of a family, and the clan matrix, contain exactly the
 members of the orbit, arranged so that rows, columns and blocks are the smaller orbits they stand for. Orbits are the same whichever member they are computed from.''',
 ['inputs'], 'all functions of up to 3 arguments in stripes, random functions of 4, with symmetric and degenerate ones and redundant arity',
 'Tests print the orbits of a few functions.',
 ['boolf/methods/_ec'],
 [('orbits', 'boolf/methods/_ec/ec_family'), ('clan matrix and partitions', 'boolf/methods/_ec/ec_clan_matrix')],
 ['return values'])

prop('F05', 'Class representatives are members, minimal and class invariants',
 '''The minimal representatives of the family, faction and clan of a Boolean function are the members of the respective class with the smallest Zhegalkin index; they are the same for all members of a class, different for different classes, and fast and slow computations agree.
 For functions with an odd number of true places, the male representative of the family is its one member for which every argument is true on an even number of true places; other functions are refused.''',
 ['inputs'], 'all functions of up to 3 arguments in stripes, random functions of 4 arguments with random class members',
 'Tests pin some representatives.',
 ['boolf/metributes/_ec_reps'],
 [('representatives', 'boolf/metributes/_ec_reps')],
 ['attribute reads on several members of one class'])

prop('F06', 'Zhegalkin transform and everything derived from it',
 '''The Zhegalkin index of a function is the integer encoding of its algebraic normal form, building a function from the index inverts it, and the twin for a given arity is the function whose truth table is that normal form, twice the twin being the function itself.
 A function is noble exactly when it equals its twin; patrons, noble quadrants, praetors, prefects and consuls satisfy their defining identities with twins and truth tables for every arity.
 The helper functions for nobles, twins and Sierpinski patterns agree with the same definitions.''',
 ['inputs'], 'random functions up to 6 arguments, all functions of up to 3 arguments in stripes',
 'Tests pin a few examples.',
 ['boolf/metributes/zhe', 'boolf/methods/twin', 'boolf/methods/is_noble', 'boolf/methods/noble_quadrant', 'boolf/methods/_patron', 'boolf/metributes/_prefect', 'boolf/methods/consul', 'boolf/a/praetor_int', 'boolf/a/_noble', 'boolf/a/twin_misc', 'boolf/a/sierpinski_partition', 'boolf/a/sierpinski_twin', 'boolf/methods/hasse_matrix_coordinates', 'boolf/a/hasse_matrix_coordinates_to_tt'],
 [('Zhegalkin index', 'boolf/metributes/zhe'), ('twin', 'boolf/methods/twin'), ('patron', 'boolf/methods/_patron'), ('prefect', 'boolf/metributes/_prefect'), ('consul', 'boolf/methods/consul')],
 ['return values'])

prop('F07', 'Walsh spectra of functions, fissions and hyperfissions are exact',
 '''The Walsh spectrum of a function for any sufficient arity or list of arguments, with its absolute and layered forms, is the Walsh-Hadamard transform of its truth table and determines the function, and the Walsh distances are the Hamming distances to the linear functions.
 Fissions and hyperfissions split the truth table by one argument or by a list of arguments, and their weights, spectra, labels and zipped forms are those of the parts.''',
 ['inputs'], 'random functions up to 6 arguments and every sufficient arity up to 6',
 'Tests pin a few spectra.',
 ['boolf/methods/walsh_spectrum', 'boolf/methods/walsh_distances', 'boolf/methods/_hyperfission', 'boolf/metributes/_fissions', 'boolf/subinit_methods/ws'],
 [('spectrum', 'boolf/methods/walsh_spectrum'), ('fissions', 'boolf/metributes/_fissions'), ('hyperfissions', 'boolf/methods/_hyperfission')],
 ['return values'])

prop('F08', 'Bloat, blot and blight decompose a function without loss',
 '''The splits of a function pair, for each argument, the true places on either side of it. Equal and one-sided splits, the arguments they involve, and the bloat, blot and blight functions are those
 determined by the equalities, complementarities and constants forced among arguments on the true places, and the reduced function together with the removed part is equivalent to the original function.
 Reduced places, inflated places and reduced functions translate into each other exactly.''',
 ['inputs'], 'random functions up to 6 arguments biased to forced equalities, complements and constants',
 'Tests follow a few examples.',
 ['boolf/metributes/_blight', 'boolf/metributes/_splits', 'boolf/methods/bloatless_spotint', 'boolf/methods/blightless_spotint', 'boolf/methods/inflated_fullspots', 'boolf/methods/splits_combined', 'boolf/metributes/onesided_atomkeys', 'boolf/metributes/onesided_is_universe'],
 [('decomposition', 'boolf/metributes/_blight'), ('splits', 'boolf/metributes/_splits')],
 ['attribute reads'])

prop('F09', 'Filtrates and argument-pair relations are existential projections',
 '''Filtrating a function to a subset of its arguments gives the function that is true exactly where some assignment of the other arguments makes the original true. The table of filtrated pairs, in both argument orders, and the
 subset, intersection, crossing and border relations between two arguments, with the readable listings of them, agree with those projections.''',
 ['inputs'], 'random functions up to 6 arguments, sparse and dense, every ordered pair and random subset of arguments',
 'Tests check a few pairs.',
 ['boolf/methods/filtrated_boolf', 'boolf/methods/filtrated_pair', 'boolf/metributes/_basics/filtrated_pairs', 'boolf/methods/atom_pair_subset', 'boolf/methods/atom_pair_intersect', 'boolf/methods/atom_pair_crossing', 'boolf/methods/atom_border_in_atom_side'],
 [('filtrate', 'boolf/methods/filtrated_boolf'), ('pairs', 'boolf/metributes/_basics/filtrated_pairs')],
 ['return values'])

prop('F10', 'Hypersplits, bundles, gapless form and segments match the geometry',
 '''The hypersplits of a function without blight are the sets of arguments on which every combination of values occurs among the true places, with the partition of the true places by these values and the determined and free arguments of their potential cores. Bundles connect the arguments of which some pair takes all four combinations,
 grids those with three, and the gapless form excludes exactly the missing combinations of pairs with three. Segments are the subcubes of true places, and links, neighbouring links and connectedness are those of the graph they form; nothing depends on the order of enumeration.''',
 ['inputs', 'histories'], 'random functions up to 5 arguments',
 'Tests follow a few examples.',
 ['boolf/metributes/hypersplits', 'boolf/metributes/hypersplits_detailed', 'boolf/metributes/hypersplits_potential_cores', 'boolf/metributes/_bundle', 'boolf/metributes/gapless_boolf', 'boolf/methods/find_segments'],
 [('hypersplits', 'boolf/metributes/hypersplits'), ('segments', 'boolf/methods/find_segments')],
 ['return values'])

prop('F11', 'Elementary characteristics of functions match their definitions',
 '''Parity, evil/odious, ugly, male, sharp, acute, rude, rough and solid characteristics, quadrants and octants, leaders, reverses, weights and value fractions, linearity, symmetry and symmetric places, and the layered truth tables and places follow their definitions on the truth table
 for every function and every sufficient arity.''',
 ['inputs'], 'random functions up to 6 arguments, all functions of up to 3 arguments in stripes',
 'Tests pin counts for small arities.',
 ['boolf/metributes/_foibles', 'boolf/methods/_foibles', 'boolf/methods/_quadrant_extensions', 'boolf/metributes/quadrant', 'boolf/methods/leader', 'boolf/metributes/is_symmetric', 'boolf/metributes/_layered', 'boolf/metributes/_basics', 'boolf/metributes/is_linear'],
 [('foibles', 'boolf/metributes/_foibles'), ('quadrants', 'boolf/methods/_quadrant_extensions'), ('layers', 'boolf/metributes/_layered')],
 ['return values'])

prop('F12', 'Symmetry partitions are the true invariance groups',
 '''Two places of the truth table lie in one block of the symmetry partition of a function exactly when some permutation of the arguments that leaves the function unchanged maps one to the other, and two true places are equivalent exactly when some signed permutation leaving the function unchanged does so.
 A family is self-complementary exactly when the complement is obtained by negating arguments, and the spread vector tells how far each argument is shifted from its rank among the arguments. Colour classes of places transform under signed permutations like the truth table.''',
 ['inputs'], 'random functions up to 5 arguments biased to partial symmetry',
 'Tests pin a few partitions.',
 ['boolf/metributes/perm_symmetry_partition', 'boolf/metributes/spread_vector', 'boolf/metributes/family_is_self_complementary', 'boolf/metributes/symmetric_spots', 'boolf/a/apply_sigperm_to_colors', 'boolf/a/spread_sigperm_to_sigvar'],
 [('symmetry partition', 'boolf/metributes/perm_symmetry_partition')],
 ['attribute reads'])

prop('F13', 'Rendered tables and listings show the true data of the function',
 '''The wiki table row of a function states its Zhegalkin index, value and weight fractions, arity and number of bundles with the right classes and sizes, and is refused for functions with blight, with spread arguments or with value one half. The wiki clan table lists every member of the clan exactly once, in the row of its faction and the columns of its family,
 with its truth tables, all signed permutations leading to it and the right marks, weights, cardinalities and spans. Listings of segments, links and hypersplits contain exactly the computed ones, and the signed adjacency matrix of true places has the sign chosen for the distance of each pair.''',
 ['inputs'], 'all functions of up to 3 arguments and random ones of up to 7 (rows and listings) and 4 arguments (clan tables)',
 'The rendering functions have no tests.',
 ['boolf/methods/wiki_table_row', 'boolf/methods/_ec/ec_clan_matrix_wiki', 'boolf/methods/_pretty', 'boolf/methods/find_segments', 'boolf/methods/diagonal_adjacency_matrix'],
 [('table row', 'boolf/methods/wiki_table_row'), ('clan table', 'boolf/methods/_ec/ec_clan_matrix_wiki'), ('listings', 'boolf/methods/_pretty')],
 ['returned or printed text, parsed'])

# ---------------------------------------------------------------- cross-cutting
prop('V01', 'Results never depend on history and never alias inputs',
 '''Asking any question about a vector, permutation, partition or Boolean function gives the same answer whatever was asked of it, of its results or of its operands before, and the same answer on a freshly built equal object.
 Constructors and operations never modify their arguments or operands, and later changes to a passed list, set, dictionary or array do not change the object built from it.''',
 ['histories', 'inputs'], 'random interleavings of all queries and operations on pools of shared objects, replayed in other orders on fresh copies',
 'Tests ask each question once on a fresh object; caching and aliasing errors need a history.',
 ['binv', 'perm', 'sig_perm', 'walsh_perm', 'set_part', 'set_part_comp', 'boolf'],
 [('cached views', 'boolf/metributes'), ('constructors', 'boolf/__init__.py')],
 ['recorded event log: object, query, answer; offline referential-transparency checker'],
 technique='runtime monitoring: recorded query log with offline referential-transparency checker, argument/operand snapshots',)

prop('R01', 'Malformed input is refused with an error, promptly, and changes nothing',
 '''Descriptions that denote no object (wrong bits or lengths, non-permutations, overlapping cycles or blocks, too small periods, contradicting or missing argument combinations, singular matrices, truth tables whose length is no power of two, out-of-domain elements)
 are refused with the documented error class instead of being accepted, hanging or damaging state. A refused operation leaves every existing object as it was.''',
 ['inputs', 'fault_sequences'], 'systematically mutated valid descriptions for every constructor and mutating operation',
 'Tests cover single bad inputs per class.',
 ['binv/ex.py', 'perm/ex.py', 'walsh_perm/ex.py', 'set_part/ex.py', 'set_part_comp/ex.py', 'boolf/ex.py', 'ex.py'],
 [('argument checks', 'perm/__init__.py'), ('argument bouncer', 'a/subinit_bouncer')],
 ['exception type', 'object state after the exception', 'step counter for termination'],
 technique='runtime monitoring with fault injection: mutated inputs, exception and state monitors, deterministic step-budget watchdog')

prop('R02', 'Helper functions refuse arguments outside their domain',
 '''The free-standing helpers (logarithms and lengths, patterns and linear functions, signed numbers and vectors, matrices, sorting, zipping, inventories, conversions of truth tables and of finite permutations) refuse negative, fractional, too large, mistyped, unequally long, missing, superfluous or contradicting arguments with the documented error class.
 A refused call changes neither its arguments nor the results of later calls.''',
 ['inputs', 'fault_sequences'], 'argument lists that a helper accepts, each damaged in every applicable way, interleaved with accepted calls',
 'Tests show that a few good calls work; a silently accepted bad argument leaves no trace in them.',
 ['a', 'boolf/a', 'sig_perm/a', 'binv/a', 'ex.py'],
 [('condition with exception', 'a/true_except'), ('exclusive arguments', 'a/have_only'), ('linear patterns', 'a/make_linear_binv')],
 ['exception type', 'arguments before and after', 'results before and after a refusal'],
 technique='runtime monitoring with fault injection: damaged arguments, exception and argument-state monitors')

# ---------------------------------------------------------------- helpers
prop('H01', 'Integer helpers are exact at every magnitude',
 '''Binary and decimal lengths, floor, ceiling and exact binary logarithms, the power-of-two test, binary weights and their parity, positions of binary ones, bitwise folds, least common multiples, binomial coefficients, prime factors, factorial-base digits and determinants are exact for integers of every magnitude.
 Arity and table length of integers read as truth tables follow from them.''',
 ['inputs'], 'integers around all powers of 2 and 10 up to 2**200 and random ones',
 'Tests use integers below 100; floating-point logarithms fail only for particular large values.',
 ['binv/a/binary_length', 'a/_log', 'a/is_power_of_two', 'a/decimal_length', 'a/multi_lcm', 'a/binom', 'a/prime_factors', 'a/evil_odious', 'a/_binary', 'a/integer_determinant', 'a/multigrade_bitwise', 'a/int_to_factoradic', 'a/is_natural', 'a/type_like_int', 'boolf/a/intval_to_arity'],
 [('logarithms', 'a/_log'), ('lengths', 'binv/a/binary_length')],
 ['return values'])

prop('H02', 'Linear, Walsh and Sierpinski pattern helpers agree with their algebra',
 '''Argument patterns, linear patterns and linear functions, recognition of linear patterns and their indices, Walsh matrices, balanced ternary Walsh matrices, Sierpinski rows and triangles, Hasse matrices and hypercube edges are the standard objects for every admissible size, and recognising inverts generating. Patterns that are not linear are refused.''',
 ['inputs'], 'all indices up to degree 6 and random ones up to degree 10',
 'Tests check single sizes.',
 ['a/_atompatterns', 'a/make_linear_binv', 'a/make_linear_boolf', 'a/_linear_to_index_pair', 'a/walsh_function_to_index', 'a/arity_to_walsh_matrix', 'a/balanced_ternary_walsh_matrix', 'a/sierpinski', 'a/int_to_sierpinski_row', 'a/create_hasse_matrix', 'a/hypercube_edges'],
 [('linear patterns', 'a/make_linear_binv'), ('Walsh matrices', 'a/arity_to_walsh_matrix')],
 ['return values'])

prop('H03', 'Sequence and combinatorics helpers satisfy their specifications',
 '''Power sets, integer partitions, inverse Cartesian products, inventories, multiset inclusion, zipping, flattening, repeating, joint sorting of sequences, rows and columns, colexicographic sorting, slice ranges, transpositions and row swaps, logical negation, absolute value and their printed forms
 return exactly what they specify for every input, leaving the input unchanged.''',
 ['inputs'], 'random sequences, multisets, matrices and slices with duplicates, empty and single-element cases',
 'Tests check one or two examples per helper.',
 ['a/default_to_regular_dict', 'a/find_integer_partitions', 'a/flatten', 'a/have_only', 'a/inventory_dict', 'a/inventory_partition', 'a/inverse_cartesian_product', 'a/is_error', 'a/is_multisubset', 'a/is_integer_matrix', 'a/key_tuples', 'a/logic_abs', 'a/logic_abs_increase', 'a/logic_negate', 'a/logic_str', 'a/make_transposition', 'a/other_entry_in_pair', 'a/powerset', 'a/pretty_signs', 'a/repeat_sequence', 'a/sequence_element_counts', 'a/slice_to_range', 'a/sort_cols_together', 'a/sort_rows_together', 'a/sort_together', 'a/sorted_colex', 'a/subdict', 'a/swap_matrix_rows', 'a/true_except', 'a/try_except', 'a/vector_zip_apart', 'a/vector_zip_together'],
 [('helpers', 'a/__init__.py')],
 ['return values'])

prop('H04', 'Outlines of binary images enclose exactly the set pixels',
 '''The outline produced for a binary image consists of closed rectilinear loops on the pixel grid, and filling it covers exactly the pixels that are set, for every image shape and content.''',
 ['inputs'], 'random, checkerboard, nested and full images up to 24 x 24',
 'The function has no tests.',
 ['a/bin2svg'],
 [('outline tracing', 'a/bin2svg')],
 ['return value'])

prop('H05', 'Truth-table helpers of Boolean functions match the definition',
 '''Reordering, reducing, permuting and negating truth tables, layering of flat tables, comparison of layered ones and the first or last function of a collection by layers, counting split regions, ring count vectors, neighbouring places of segments, entry counts of argument sequences, index sequences, and the generators of simple functions, twins and prefects agree with direct computation for every input.''',
 ['inputs'], 'random truth tables and index lists up to 6 arguments',
 'Tests check one or two examples per helper.',
 ['boolf/a/_mod_tt', 'boolf/a/atom_indices_to_sequence', 'boolf/a/boolfs_to_swan', 'boolf/a/count_split_regions', 'boolf/a/deflate', 'boolf/a/flat_to_layered', 'boolf/a/int_to_rcv', 'boolf/a/layered_is_greater', 'boolf/a/reorder_if_atomvals_not_asc', 'boolf/a/segment_to_adjacent_spots', 'boolf/a/sequence_to_entry_counts', 'boolf/a/simple_gens', 'boolf/a/sort_each_layer', 'boolf/a/spotints_to_splits', 'boolf/a/twin_misc'],
 [('helpers', 'boolf/a/__init__.py')],
 ['return values'])
