#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/meta.py  rewrites both."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None,
         technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, state=state or [], hook=hook, technique=technique, note=note))

D = "src/data_structure/"; G = "src/graph/"; S = "src/string/"; M = "src/math/"; X = "src/misc/"
HOOK = "derived Clone/Debug on the container (cfg vp_hooks), so that the explorer can fork and fingerprint real states; without it the check falls back to replaying histories"

prop("C01", "Segment tree answers like the plain array it represents",
 "A segment tree of any length (zero and non-powers of two included), over any monoid (non-commutative included), behaves after any history of point writes exactly like the array of written values: point reads, range products, the total product, and the two boundary searches all give what a left-to-right fold of that array gives. The rightward search returns the largest right end, the leftward search the smallest left end, whose range product satisfies a predicate that is monotone along that direction. Requests outside the array, for an inverted range, or with a predicate that rejects the empty product, are refused by a panic and leave the contents unchanged.",
 ["histories","inputs"], "every length, every history of construct/set/get/prod/all_prod/max_right/min_left, every monoid, every monotone predicate",
 "The unit test replays one array of length 10 under max (commutative, idempotent); non-commutative products, other lengths and other histories are never exercised.",
 [D+"segtree.rs", X+"util.rs"],
 [("bottom-up recomputation of ancestors after a write", D+"segtree.rs set/update"), ("left and right accumulators kept in order", D+"segtree.rs prod"), ("descend/ascend loops of the boundary searches", D+"segtree.rs max_right/min_left")],
 ["Segtree::{new,from,default,set,get,prod,all_prod,max_right,min_left}"],
 [dict(name="d", meaning="heap-ordered node products, identity-padded", where=D+"segtree.rs")], HOOK,
 technique="explicit-state search of the real tree over the free monoid (closure: any history), plus exhaustive length/range sweeps with an exact interval monoid",
 note="Reachable state spaces are closed for each small length over a free-monoid alphabet, so histories of any length are covered there; larger lengths are covered for construct/one or two writes with every range. Trusts parametricity of the generic code and the array reference model.")

prop("C02", "Lazy segment tree answers like an array under range updates",
 "A lazy segment tree of any length behaves after any history of point writes, point updates and range updates exactly like the array obtained by applying each update to each covered element in order, for any monoid and any family of maps acting on it (non-commutative products and non-commuting maps included): reads, range products, the total product and both boundary searches agree with the array at every moment. Queries never change any later answer. Requests outside the array, for an inverted range, or with a predicate that rejects the empty product, are refused by a panic and leave the contents unchanged.",
 ["histories","inputs"], "every length, every history of set/get/apply/apply_range/prod/all_prod/max_right/min_left, every monoid with a compatible action",
 "The unit test runs one history of seven operations over max/add, whose maps commute, so composition order and pending-update propagation are not settled.",
 [D+"lazy_segtree.rs", "src/traits/monoid.rs"],
 [("pending maps pushed down before a node is read or split", D+"lazy_segtree.rs push"), ("composition of a new map after the pending one", D+"lazy_segtree.rs all_apply"), ("recomputation on both boundaries", D+"lazy_segtree.rs apply_range")],
 ["LazySegtree::{new,from,default,set,get,prod,all_prod,apply,apply_range,max_right,min_left}"],
 [dict(name="d", meaning="node products", where=D+"lazy_segtree.rs"), dict(name="lz", meaning="pending maps of inner nodes", where=D+"lazy_segtree.rs")], HOOK,
 technique="explicit-state search of the real tree to closure over words x the full transformation monoid on two letters, plus exhaustive two-update sweeps over larger lengths",
 note="Closure over all real reachable states for small lengths with non-commutative products and non-commuting maps; larger lengths bounded to two updates with an exact-up-to-2^-61 algebraic fingerprint. Trusts parametricity and the array model.")

prop("C03", "Fenwick tree answers prefix sums, range sums and searches correctly",
 "A Fenwick tree of any length, built empty or from a slice, returns after any history of additions the exact sum of every prefix and of every range. Its partition search returns the number of prefix sums on the true side of any predicate that partitions the prefix-sum array, and the target search the index of the first prefix sum that is not below the target (the length if there is none), also for an empty tree.",
 ["histories","inputs"], "every length including 0, every history of additions, every range, every partitioning predicate over non-decreasing prefix sums",
 "One unit test and three doc examples use the array 1..5; lengths, boundary indices, ties and the empty tree are not covered.",
 [D+"fenwick_tree.rs"],
 [("low-bit walks up and down", D+"fenwick_tree.rs add/pref"), ("linear construction", D+"fenwick_tree.rs from"), ("binary descent", D+"fenwick_tree.rs partition_point")],
 ["FenwickTree::{new,from,add,pref,sum,partition_point,search}"],
 [dict(name="ary", meaning="partial sums by low bit", where=D+"fenwick_tree.rs")], HOOK,
 technique="explicit-state search of the real tree over Z_3 to closure, plus exhaustive arrays/additions/predicates with exact integer models",
 note="Closure over group-valued contents for small lengths, exhaustive small arrays, and all ranges/cuts for every length up to a few hundred.")

prop("C04", "Sparse table answers every range query of its array",
 "For any array (the empty one included) and any associative idempotent operation, commutative or not, every non-empty range query returns the fold of that range in order, and the filler value given at construction never influences an answer. An empty or inverted range is refused by a panic.",
 ["inputs"], "every array length, every range, every idempotent associative operation",
 "Tests use min over one fixed and one random array; order-sensitive operations, the boundary lengths and the filler value are not distinguished.",
 [D+"sparse_table.rs", X+"util.rs"],
 [("doubling construction", D+"sparse_table.rs from"), ("two overlapping blocks cover the range", D+"sparse_table.rs get"), ("floor log2", X+"util.rs lg")],
 ["SparseTable::{from,get}"],
 technique="exhaustive exploration of every length and every range with an exact interval band (order- and gap-sensitive), plus all small arrays under concrete operations",
 note="For each length explored the interval band makes one run stand for all values and operations (the code is generic in the element); lengths beyond the bound are covered at block boundaries only.")

prop("C05", "Union-find tracks exactly the partition generated by its joins",
 "After any history of joins and queries on n elements, two elements are reported together exactly when the joins connect them; a join reports true exactly when it merged two different sets; the size of an element's set and the list of all groups are exact; and each set has one representative, a member of it, that every member reports until the next join. Queries never change any answer, no history makes an operation fail or run out of stack, and elements outside the range are refused by a panic.",
 ["histories"], "every history of find/is_same/join/size/groups on any number of elements",
 "There is no test of union-find at all.",
 [D+"union_find.rs"],
 [("path compression", D+"union_find.rs find"), ("root linking by size", D+"union_find.rs join")],
 ["UnionFind::{new,find,is_same,join,size,groups}"],
 [dict(name="fa", meaning="parent pointers", where=D+"union_find.rs"), dict(name="sz", meaning="set size at roots", where=D+"union_find.rs")], HOOK,
 technique="explicit-state search of the real structure to closure against a partition model",
 note="All reachable internal states for small n (any history), plus long adversarial join chains on many elements for stack exhaustion.")

prop("C06", "Min-heap pops in non-decreasing order and loses nothing",
 "After any history of pushes, pops, appends and clears the heap holds exactly the elements put in and not yet taken out: pop and peek give a minimum of them (nothing when empty), the length and emptiness are exact, appending moves everything and empties the source. Draining into a sorted vector gives exactly the held elements in ascending order.",
 ["histories"], "every history of new/with_capacity/push/pop/peek/len/append/is_empty/clear/into_sorted_vec, including equal keys",
 "There is no test of the heap at all.",
 [D+"min_heap.rs"],
 [("order reversal around the standard max-heap", D+"min_heap.rs")],
 ["MinHeap::{new,with_capacity,push,pop,peek,len,append,is_empty,clear,into_sorted_vec}"],
 [dict(name="0", meaning="underlying reversed heap", where=D+"min_heap.rs")], HOOK,
 technique="explicit-state search of the real heap (all internal layouts up to a size cap) against a multiset model",
 note="Closure over all reachable layouts up to a size cap over a small key alphabet with distinguishable equal keys.")

prop("C07", "Dijkstra returns exact shortest distances",
 "For every directed graph with non-negative weights (zero weights, self-loops, parallel edges and disconnected parts included) and every source, the result gives for each vertex the minimum total weight over all paths from the source, and nothing exactly for unreachable vertices. The answer does not depend on the order edges are listed in.",
 ["inputs"], "every weighted directed multigraph, every source, every adjacency order, weights whose path sums are representable",
 "There is no test of shortest paths.",
 [G+"shortest_path.rs", D+"min_heap.rs"],
 [("relaxation with lazy deletion", G+"shortest_path.rs")],
 ["dijkstra"],
 technique="exhaustive exploration of all small weighted graphs, edge lists and larger graph families on the real code against Bellman-Ford",
 note="All graphs within the stated vertex/weight bounds, all ordered short edge lists; larger graphs only by parametric family.")

prop("C08", "Strongly connected components are exact and reverse-topologically numbered",
 "For every directed graph two vertices receive the same component number exactly when each reaches the other, the numbers are exactly 0 up to the returned count, and every edge between different components goes from a higher number to a lower one.",
 ["inputs"], "every directed multigraph with self-loops, every adjacency order",
 "There is no test of strongly connected components.",
 [G+"tarjan.rs"],
 [("low-link computation over the vertex stack", G+"tarjan.rs dfs"), ("component emission order", G+"tarjan.rs scc")],
 ["scc"],
 technique="exhaustive exploration of all digraphs up to five vertices (and families beyond) on the real code against transitive closure",
 note="All digraphs in bounds with several adjacency orders; larger graphs only by family.")

prop("C09", "Ancestor queries, LCA and distance on rooted trees are exact",
 "For every tree, every root and every pair of vertices, the ancestor test holds exactly for vertices on the path to the root (a vertex is its own ancestor), the lowest common ancestor is the deepest common one, and the distance is the number of edges between them. The published depths, power-of-two ancestors (saturating at the root) and entry/exit times agree with the same rooted tree.",
 ["inputs"], "every tree, root, vertex pair and adjacency order",
 "There is no test of binary lifting.",
 [G+"binary_lifting.rs", X+"util.rs"],
 [("doubling table", G+"binary_lifting.rs dfs"), ("Euler intervals", G+"binary_lifting.rs is_ancestor"), ("highest jump that stays below the ancestor", G+"binary_lifting.rs lca")],
 ["BinaryLifting::{from,is_ancestor,lca,dis,dep,pa,tin,tout}"],
 technique="exhaustive exploration of all labelled rooted trees up to seven/eight vertices and of tree families on the real code against parent-walk models",
 note="All labelled trees x roots x vertex pairs in bounds; larger sizes by family with all pairs.")

prop("C10", "Heavy-light decomposition applies and aggregates exactly paths and subtrees",
 "For every tree and root, after any history of vertex writes, path updates and subtree updates, each vertex's value and every path and subtree aggregate equal those of the plain per-vertex model, for any commutative aggregation and any compatible maps (non-commuting maps included). Initial values given at construction are attached to their own vertices. The public array holds every vertex's value at its public position, and changes made through it count like any other. A root that is no vertex, or a list of initial values of another length, is refused by a panic.",
 ["histories","inputs"], "every tree, root, adjacency order, and history of set/get/apply_path/path_prod/apply_subtree/subtree_prod",
 "There is no test of the decomposition.",
 [G+"heavy_light_decomp.rs", D+"lazy_segtree.rs"],
 [("heavy-first numbering makes chains and subtrees contiguous", G+"heavy_light_decomp.rs dfs2"), ("jumping from the deeper chain head", G+"heavy_light_decomp.rs apply_path/path_prod")],
 ["HLD::{new,with_init_value,set,get,apply_path,path_prod,apply_subtree,subtree_prod,pos,data}"],
 [dict(name="pos", meaning="vertex -> array position", where=G+"heavy_light_decomp.rs")], HOOK,
 technique="exhaustive exploration of all labelled rooted trees x update histories on the real structure against a per-vertex model",
 note="All labelled trees and roots up to the vertex bound, all histories up to the update bound, every query after each; commutative aggregation only, as the code promises no order along a path.")

prop("C11", "Maximum flow equals minimum cut, also when edges are added later",
 "For every directed capacitated multigraph and distinct source and sink, the reported flow equals the capacity of a minimum cut, for every integer capacity type whose range holds the total. When edges are added after a flow was computed, each further call reports exactly the increase, so that the sum of reports is the maximum flow of all edges so far. A call with other terminals reports the maximum flow of the residual network that the earlier calls left.",
 ["inputs","histories"], "every capacitated directed multigraph, every edge order, every history of add_edge/get_max_flow",
 "There is no test of max flow.",
 [G+"max_flow.rs"],
 [("level graph", G+"max_flow.rs bfs"), ("blocking flow with current-arc pointers", G+"max_flow.rs dfs"), ("paired reverse edges", G+"max_flow.rs add_edge")],
 ["Dinic::{new,add_edge,get_max_flow}"],
 [dict(name="e", meaning="residual capacities, edge and reverse paired", where=G+"max_flow.rs")], HOOK,
 technique="exhaustive exploration of all small networks and of all add/flow histories on the real solver against brute-force minimum cuts",
 note="All networks within vertex/capacity bounds and all short interleavings of edge insertion and flow computation.")

prop("C12", "Bipartite matching is maximum, also when edges are added later",
 "For every bipartite graph the solver returns the size of a maximum matching, whatever the order or repetition of edges. Solving again, with or without edges added in between, returns the maximum for all edges so far.",
 ["inputs","histories"], "every bipartite graph with any side sizes, every edge order, every history of add_edge/solve",
 "There is no test of bipartite matching.",
 [G+"bipartite_matching.rs"],
 [("augmenting search with per-round visit marks", G+"bipartite_matching.rs dfs/solve")],
 ["AugmentedPath::{new,add_edge,solve}"],
 [dict(name="l,r", meaning="current partner of each side", where=G+"bipartite_matching.rs")], HOOK,
 technique="exhaustive exploration of all small bipartite graphs, and explicit-state search over add/solve histories, against Hall's deficiency formula",
 note="All bipartite graphs within side bounds, all adjacency orders and add/solve histories on smaller ones.")

prop("C13", "Prefix function gives the longest proper border of every prefix",
 "For every sequence over any comparable element type, the result has one entry per position, equal to the length of the longest proper prefix of the prefix ending there that is also its suffix; the empty sequence gives an empty result.",
 ["inputs"], "every sequence",
 "There is no test of the prefix function.",
 [S+"kmp.rs"], [("failure links followed on mismatch", S+"kmp.rs")], ["kmp"],
 technique="exhaustive exploration of all short words and of periodic/Fibonacci families on the real code against the definition",
 note="Every word over 2/3/4 letters up to the length bounds; longer words by family.")

prop("C14", "Z function gives the longest common prefix at every position",
 "For every sequence over any comparable element type, the result has one entry per position: position zero holds 0, and every later position holds the length of the longest common prefix of the whole sequence and the suffix starting there; the empty sequence gives an empty result.",
 ["inputs"], "every sequence",
 "There is no test of the Z function.",
 [S+"z_algorithm.rs"], [("reuse of the rightmost match window", S+"z_algorithm.rs")], ["z_function"],
 technique="exhaustive exploration of all short words and of periodic/Fibonacci families on the real code against the definition",
 note="Every word over 2/3/4 letters up to the length bounds; longer words by family.")

prop("C15", "Multi-pattern search reports every occurrence of every pattern",
 "For every set of distinct non-empty patterns and every text over the automaton's alphabet, the full search lists for each text position exactly the patterns ending there, the single search gives the longest of them (or nothing), and the count gives for each pattern its exact number of occurrences, overlapping ones included. Results are attributed to the index each pattern was given, for any alphabet offset and size; an empty pattern is refused by a panic.",
 ["inputs"], "every distinct pattern set, every text, every alphabet configuration",
 "There is no test of the automaton.",
 [S+"aho_corasick.rs"],
 [("trie construction", S+"aho_corasick.rs insert"), ("failure and output links in breadth-first order", S+"aho_corasick.rs build"), ("output-chain walk", S+"aho_corasick.rs find_all/find_cnt")],
 ["AhoCorasick::{new,insert,build,from,find,find_all,find_cnt}"],
 technique="exhaustive exploration of all small pattern sets x all short texts on the real automaton against direct substring comparison",
 note="All pattern sets and texts in bounds for several alphabets; patterns equal to each other are outside the property (the last index wins).")

prop("C16", "Modular addition, subtraction, negation and multiplication are exact",
 "For every modulus (compile-time or run-time chosen, from 1 to 2^31) and all residues, addition, subtraction, negation, multiplication, and sums and products over sequences give the canonical representative, always below the modulus, of the exact integer result. By-value, by-reference, assigning and mixed-with-integer forms agree.",
 ["inputs","configurations"], "every modulus in 1..=2^31, every pair of residues, every operator form, every operand sequence",
 "Tests use one modulus (1000000007) and a handful of operand pairs; the run-time modulus has no arithmetic test at all.",
 [X+"modint.rs", M+"internal_math.rs"],
 [("conditional subtraction/addition", X+"modint.rs add_impl/sub_impl"), ("Barrett reduction", M+"internal_math.rs mul_mod"), ("folding from zero and one", X+"modint.rs impl_folding")],
 ["StaticModInt, DynamicModInt operators, Sum, Product"],
 technique="exhaustive exploration of all operand pairs for every small modulus and of boundary operand grids for large moduli on the real code against wide-integer arithmetic",
 note="All pairs for every small modulus; for large moduli only the boundary grids are enumerated (data values outside them are not covered).")

prop("C17", "Modular powers, inverses and division are exact",
 "For every modulus and residue, raising to any exponent gives the exact residue of the power (power zero gives the residue of one), and inversion gives the unique residue whose product with the original is one, exactly when one exists; division is multiplication by that inverse. Inverting or dividing by a residue without an inverse panics rather than returning a value, for prime-declared, undeclared and run-time moduli alike.",
 ["inputs","configurations"], "every modulus in 1..=2^31, every residue, every 64-bit exponent",
 "One prime modulus and four divisions are tested; composite moduli, non-invertible residues, modulus 1, and powers are not.",
 [X+"modint.rs", M+"internal_math.rs"],
 [("square-and-multiply", X+"modint.rs pow"), ("extended Euclid", M+"internal_math.rs inv_gcd"), ("Fermat for prime moduli", X+"modint.rs inv")],
 ["pow, inv, / on StaticModInt and DynamicModInt"],
 technique="exhaustive exploration of all residues and exponents for every small modulus, boundary grids for large ones, on the real code",
 note="Complete for small moduli; boundary grids for large moduli and exponents.")

prop("C18", "Conversion into and out of modular integers is lossless modulo m",
 "A modular integer made from any value of any primitive integer type is the canonical residue of that value (negative values included), and parsing the decimal text of any 64-bit signed integer gives the residue of that integer. Printing shows exactly the representative; two modular integers are equal exactly when their sources are congruent, equal ones hash equally, and the default is zero.",
 ["inputs","configurations"], "every primitive integer type and value, every modulus in 1..=2^31, every decimal text of a 64-bit integer",
 "Only u32/u64/usize/i64 values 0, 1, m+1 and -1 at one modulus are tested.",
 [X+"modint.rs"],
 [("Euclidean remainder per type", X+"modint.rs RemEuclidU32"), ("text parsing", X+"modint.rs from_str_impl")],
 ["new, From, FromStr, Display, Debug, Eq, Hash, Default"],
 technique="exhaustive exploration of all 8/16-bit values and boundary sets of wider types for many moduli on the real code",
 note="Complete for 8- and 16-bit types at the listed moduli; boundary sets for wider ones.")

prop("C19", "A run-time modulus takes effect everywhere and only for its own family",
 "Once set, a run-time modulus is what every thread reads and what all arithmetic on values created afterwards in any thread uses, until it is set again; setting it never affects another family of run-time moduli or compile-time moduli. Before the first setting it is 998244353; setting zero is refused by a panic and changes nothing. This holds as well while calls of several threads overlap at any point, as long as none of them changes the modulus of the family the others use (using it, setting it to the modulus it already has, a refused setting, and calls on other families may all overlap).",
 ["histories","schedules"], "every history of set/read/arithmetic over several modulus families, every call-level interleaving of threads that respects the documented set-before-use rule, every machine instruction of a call at which another thread takes over",
 "A doc example sets one modulus once; re-setting, several families and threads are not tested.",
 [X+"modint.rs"],
 [("static modulus cell per family", X+"modint.rs Id/Barrett"), ("paired update of modulus and its reciprocal", X+"modint.rs update")],
 ["DynamicModInt::{set_modulus,modulus}, operators"],
 [dict(name="m, im", meaning="modulus and reciprocal", where=X+"modint.rs Barrett")],
 technique="exhaustive enumeration of operation histories x thread assignments under a controlled (baton) scheduler, and of switch points between machine instructions (processor trap flag), on the real code",
 note="All histories up to the depth bound over two families and 1-3 threads at API-call granularity; every pair of overlapping calls that leaves the modulus as it is, the second run whole between every two machine instructions of the first, and both stopped half-way within bounds. Switches are sequentially consistent; changing a modulus while it is used is excluded by the documented contract.")

prop("C20", "gcd, lcm and Bezout coefficients are exact for every integer type",
 "For every pair of integers of any primitive type the greatest common divisor is exact for non-negative arguments and exact in magnitude otherwise, and the least common multiple is exact (in magnitude) whenever it is representable and the arguments are not both zero. For signed types the extended form returns coefficients and a divisor that satisfy the Bezout identity exactly, the divisor having the magnitude of the greatest common divisor, without overflow.",
 ["inputs"], "every pair of arguments of every primitive integer type, the signed minimum excluded",
 "There is no test of these functions.",
 [M+"number_theory.rs"],
 [("Euclid's algorithm", M+"number_theory.rs gcd"), ("lcm through gcd", M+"number_theory.rs lcm"), ("recursive coefficients", M+"number_theory.rs ex_gcd")],
 ["gcd, lcm, ex_gcd"],
 technique="exhaustive exploration of the complete 8-bit (thorough: 16-bit) argument spaces and boundary grids of wider types on the real code",
 note="Complete for i8/u8 (and i16/u16 in thorough); boundary grids for wider types.")

prop("C21", "Systems of linear congruences are solved completely",
 "For every system of congruences a*x = b modulo m with positive moduli (coefficients of either sign or zero, moduli not necessarily coprime), the solver returns nothing exactly when no integer satisfies all of them, and otherwise the smallest non-negative solution together with the positive period, such that the solutions are exactly that solution plus multiples of the period. This holds as long as the magnitude of each coefficient times the period, plus that of the right-hand side, is representable.",
 ["inputs"], "every system of any size with representable products",
 "There is no test of the congruence solver.",
 [M+"number_theory.rs"],
 [("merging one congruence at a time through extended gcd", M+"number_theory.rs ex_crt")],
 ["ex_crt"],
 technique="exhaustive exploration of all small systems on the real solver against brute-force enumeration of the solution set; boundary systems for large moduli",
 note="All systems of up to two (partly three) congruences within the coefficient/modulus bounds, plus a grid of large-modulus systems.")

prop("C22", "Binomials and falling factorials from factorial tables are exact",
 "For every compile-time modulus and table size whose factorial is invertible, every binomial coefficient and every number of k-permutations within the table equals the exact combinatorial number modulo the modulus. Arguments outside the table, or choosing more than available, are refused by a panic.",
 ["inputs","configurations"], "every modulus, table size N with N! invertible, and 0 <= k <= n <= N",
 "There is no test of factorial tables.",
 [M+"factorial.rs", X+"modint.rs"],
 [("forward factorials and backward inverses", M+"factorial.rs new")],
 ["Factorial::{new,choose,perm}"],
 technique="exhaustive exploration of all (modulus, table size, n, k) in bounds on the real code against Pascal's triangle",
 note="Complete for many small prime and composite moduli and all admissible sizes; large moduli up to a size bound.")

prop("C23", "Primality, primitive roots and modular helpers are exact",
 "The library's primality decision is right for every non-negative 32-bit signed integer, the primitive root of every prime is the smallest generator of its multiplicative group, modular power and non-negative remainder are exact, and the combined gcd/inverse helper returns the gcd and the reduced coefficient. Precomputed-reciprocal multiplication equals the exact product remainder for every modulus up to 2^31.",
 ["inputs"], "every 31-bit integer, every prime, every operand in range",
 "Primality is tested up to 10^6 only and primitive roots for nine primes; the remaining 2^31 inputs, including strong pseudoprimes to single bases, are not.",
 [M+"internal_math.rs"],
 [("deterministic Miller-Rabin with three bases", M+"internal_math.rs is_prime"), ("trial over divisors of p-1", M+"internal_math.rs primitive_root"), ("Euclid with bounded coefficients", M+"internal_math.rs inv_gcd")],
 ["crate-internal helpers used by the modular integers"],
 hook="public wrappers of the crate-internal functions (cfg vp_hooks)",
 technique="exhaustive enumeration of the input space on the real code (thorough: every 31-bit integer) against a segmented sieve and direct definitions",
 note="Primality: quick every integer below 2^27, windows near 2^31 and 180,000 composites of the shapes that fool probabilistic tests; thorough every non-negative i32. Primitive roots: every prime below 2^21 (thorough 2^24) and windows near 2^31. Needs the hooks; without them only products are observed, through the public type.")

prop("C24", "Integer logarithms are exact for every argument",
 "The floor logarithm returns for every positive machine integer the largest exponent whose power of two does not exceed it, and the ceiling logarithm returns for every 32-bit integer the smallest exponent whose power of two is at least it (0 for 0).",
 ["inputs"], "every non-zero usize and every u32",
 "The ceiling form is tested on a dozen values and the floor form not at all.",
 [X+"util.rs"], [("leading-zero counts", X+"util.rs")], ["lg, ceil_lg"],
 technique="exhaustive enumeration of all 2^32 arguments (floor form also around every power of two up to 2^64) on the real code",
 note="Complete for the ceiling form; the floor form is complete below 2^32 and covered around and between powers above.")

prop("C25", "Token reader yields the whitespace-separated tokens in order",
 "Whatever mixture of reading methods is used, successive reads consume the maximal non-whitespace tokens of the input in order, each exactly once, converted to the requested type; reading a vector of n consumes exactly n tokens. The checked read gives nothing exactly when no token remains, and unchecked reads past the end or of malformed tokens panic.",
 ["inputs","histories"], "every input text, every sequence of read/checked_read/i32/i64/usize/bytes/chars/vec calls",
 "There is no test of the reader.",
 [X+"input.rs"], [("standard whitespace splitting with one shared cursor", X+"input.rs")],
 ["In::{new,read,checked_read,i32,i64,usize,bytes,chars,vec}"],
 technique="exhaustive enumeration of all short texts over a whitespace/digit/letter alphabet x all short read sequences on the real reader against a hand-written tokenizer",
 note="All texts and call sequences within bounds; type conversion itself is the standard library's.")

prop("C26", "Provided monoids obey the monoid laws and numeric constants are right",
 "For every primitive integer type the provided maximum, minimum, sum and product monoids combine two values to their maximum, minimum, sum and product, associatively, with an identity that is neutral on both sides for every value; the numeric constants zero, one, least and greatest are those of the type.",
 ["inputs","configurations"], "every primitive integer type and all values (sums and products that fit)",
 "Only max over i32 is used, incidentally, by the segment-tree tests.",
 [X+"monoids.rs", "src/traits/numeric.rs"], [("instances over the numeric traits", X+"monoids.rs")],
 ["Max, Min, Additive, Multiplicative; Zero, One, BoundedBelow, BoundedAbove"],
 technique="exhaustive enumeration of all 8-bit pairs and triples and boundary grids of wider types on the real instances",
 note="Complete for 8-bit types; boundary grids for the others, and modular integers' use through user-supplied constants is outside.")

prop("C27", "Recursive closures compute what the same native recursion computes",
 "For every arity from zero to nine, calling a wrapped recursive closure passes each argument in its own position at every level, returns exactly what the equivalent native recursive function returns, and lets the closure's captured state accumulate across all nested and successive calls.",
 ["programs","inputs"], "every arity 0..=9, every finite call tree, every captured-state update",
 "There is no test of the recursive-function wrappers.",
 [X+"recursive_function.rs"], [("re-entrant call through the wrapper", X+"recursive_function.rs call")],
 ["RecursiveFunction{0,,2..9}::{new,call}"],
 technique="exhaustive enumeration of all call trees up to a node bound for every arity, executed on the real wrappers and on native recursion",
 note="All ordered call trees in bounds; two closures that own state changed around nested calls are known findings (see DESIGN.md).")

prop("C28", "Debug tracing reports each expression once, in order, and nothing in release",
 "In debug builds the tracing macro evaluates each given expression exactly once, in order, and writes one line to standard error with the source line and each expression's text and debug value, writing nothing to standard output. In release builds every accepted use compiles to nothing: no evaluation and no output.",
 ["programs","configurations"], "every argument list, debug and release builds",
 "There is no test of the tracing macro in either build.",
 [X+"debug.rs"], [("macro expansion per build configuration", X+"debug.rs")], ["de!"],
 technique="exhaustive enumeration of argument lists (length, expression kind, trailing comma) compiled and executed in both build configurations",
 note="All uses within bounds: 30 expression kinds, all pairs, triples of ten kinds (thorough: of all), eight spellings, six places, three ways of importing. Lines of concurrent threads are outside.")

prop("C29", "Operations stay within their logarithmic or linear number of steps",
 "For every length n (writing L for ceil(log2 n)+1), every argument and every history: a point or range operation, product or boundary search of the segment tree makes at most 8L calls of user-supplied functions (combination, predicate), of the lazy segment tree at most 40L (combination, mapping, composition, predicate), and building either O(n); a Fenwick addition, sum or search makes at most 12L additions and predicate calls and building O(n); a sparse table answers with at most three combinations after at most 3nL+8 to build; a heap push or pop makes at most 8L comparisons; a vertex or subtree operation of the heavy-light decomposition makes at most 40L user calls and a path operation at most 42L^2; the prefix and Z functions make at most 4n+8 comparisons. A shortest-path search expands every vertex only once, however often shorter ways to it are found.",
 ["inputs","histories"], "every length, index, range, cut position, tree shape, insertion order and sequence",
 "Tests check answers on short inputs only; an operation that degrades to linear or quadratic work returns the same answers and passes them.",
 [D+"segtree.rs", D+"lazy_segtree.rs", D+"fenwick_tree.rs", D+"sparse_table.rs", D+"min_heap.rs", G+"heavy_light_decomp.rs", G+"shortest_path.rs", S+"kmp.rs", S+"z_algorithm.rs"],
 [("climbing to the largest aligned block before descending", D+"segtree.rs max_right/min_left"), ("pending maps instead of eager updates", D+"lazy_segtree.rs apply_range"), ("low-bit steps", D+"fenwick_tree.rs"), ("heavy child first in chains", G+"heavy_light_decomp.rs dfs1/dfs2"), ("fallback along known borders and the rightmost window", S+"kmp.rs, "+S+"z_algorithm.rs")],
 ["calls of the user's Monoid, MapMonoid, predicate, addition and comparison functions"],
 technique="exhaustive exploration of lengths, ranges, cuts, shapes and orders on the real code with every user-supplied function counted",
 note="Counts calls of user-supplied functions, so it covers exactly the generic structures; all lengths and ranges in bounds and boundary indices to 2^17 (thorough 2^19). Cost of the algorithms without user functions (shortest paths included) is only bounded by the time limit on large instances.")

prop("C30", "Safe use of the library never reaches undefined behaviour",
 "No sequence of calls of the crate's safe interface, with arguments in range or out of range, with element types that own memory, with user-supplied functions that panic at any call and the structure used again afterwards, from one thread or several, causes undefined behaviour: no access outside an allocation, no use of freed, uninitialised or twice dropped memory, no invalid value, no conflicting use of exclusive references, no data race. Such a call returns or panics.",
 ["inputs","histories"], "every structure and function, every argument and history of calls, every call of a user function at which it panics",
 "Tests observe answers of valid calls on plain integers; memory errors and races need not change an answer, and panicking user functions, owned elements and threads are never tried.",
 [G+"shortest_path.rs", X+"recursive_function.rs", X+"modint.rs", D+"segtree.rs", D+"lazy_segtree.rs", D+"min_heap.rs", D+"fenwick_tree.rs", D+"union_find.rs", D+"sparse_table.rs", G+"max_flow.rs", G+"heavy_light_decomp.rs", S+"aho_corasick.rs", X+"input.rs"],
 [("unchecked unwrap guarded by the absence test to its left", G+"shortest_path.rs dijkstra"), ("re-entrant access to the closure through a cell", X+"recursive_function.rs call"), ("process-wide modulus held in atomics, caches per thread", X+"modint.rs"), ("bounds-checked indexing everywhere else", "src/")],
 ["every public function"],
 technique="exhaustive enumeration of inputs and short call histories executed on the real code under Miri (Tree Borrows, data-race detection) as the monitor",
 note="All cases of 23 spaces (15 thousand quick in the release profile, 450 thousand thorough in both profiles). Bounds are small because Miri is slow; threads run in one schedule per case. Two recursive closures that own what they change are known findings.")

prop("C31", "Objects and calls are independent of each other",
 "What a call answers (a value, or a refusal by panic) is determined by its arguments and the history of calls on the object it is made on. It does not depend on other objects of the same or another type (except that run-time moduli of one family share their modulus, as documented), on earlier calls or refused calls elsewhere, on which thread or process makes it, on how calls on different objects interleave or overlap on several threads, or on what user-supplied functions (combination, mapping, predicate, comparison, arithmetic of a user's integer type, recursive closures) do with the library while they run, including waiting for another thread that uses it. Repeating a history gives the same answers every time.",
 ["inputs","histories","schedules"], "every pair of call histories over every structure and function, every interleaving of their steps on one thread or two, every call of a user function during one of them, and every machine instruction of one at which another thread takes over",
 "Each test uses one or two objects on its own thread in one order; shared caches, scratch buffers and locks only show with a second object, modulus, thread, refused call or nested call in the right place.",
 [D+"segtree.rs", D+"lazy_segtree.rs", D+"fenwick_tree.rs", D+"sparse_table.rs", D+"union_find.rs", D+"min_heap.rs", G+"max_flow.rs", G+"bipartite_matching.rs", G+"shortest_path.rs", G+"tarjan.rs", G+"heavy_light_decomp.rs", G+"binary_lifting.rs", S+"kmp.rs", S+"z_algorithm.rs", S+"aho_corasick.rs", M+"factorial.rs", M+"number_theory.rs", X+"modint.rs", X+"util.rs", X+"input.rs", X+"recursive_function.rs"],
 [("all state in the object or the call frame", "src/"), ("process-wide modulus per family", X+"modint.rs Id::companion_barrett")],
 ["every public function"],
 technique="exhaustive exploration of pairs of call histories on the real code: all sequential orders, all interleavings of their steps on one and two threads (controlled by a baton), all nestings at user-function calls, all switches at machine instructions, against each history alone in a fresh process",
 note="Switches between threads happen between calls, at calls of user functions, and before single machine instructions (trap flag; the other thread then runs a whole history; two calls that are both interrupted half-way are not explored). C30 runs two threads under Miri's race detector.")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "state": p["state"],
                       "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                       "observe_at": p["observe"], "hook_needed": p["hook"]}
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")
    try:
        claimed = set(open(os.path.join(ROOT, "tools", "claimed.txt")).read().split())
    except FileNotFoundError:
        claimed = set()
    hooks_file = os.path.join(ROOT, "tools", "hook_commits.txt")
    hooks = open(hooks_file).read().split() if os.path.exists(hooks_file) else []
    man = {"version": 1, "setup_cmd": "python3 run.py setup",
        "hooks": {"guard": "cfg(vp_hooks)", "enable": "RUSTFLAGS='--cfg vp_hooks' (set by run.py for every build of the checks)", "source_commits": hooks},
        "checks": [{"property": p["id"], "quick_cmd": f"python3 run.py check {p['id']}",
                    "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {p['id']}",
                    "technique": "model checking: " + p["technique"], "level": "model_checking", "level_note": p["note"]}
                   for p in P if p["id"] in claimed],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in claimed],
        "notes": "Every check explores the real crate, built from /repo's working tree in two configurations (debug assertions and overflow checks on; plain release)."}
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

if __name__ == "__main__":
    main()
