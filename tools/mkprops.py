#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement)
    P.append(d)

p("C01", "Binary diagram connectives compute the pointwise Boolean function",
  "For any variables and any operand diagrams, not, and, or, xor, implication, nand, nor, xnor and if-then-else return a diagram whose value at every assignment is that connective applied to the operands' values there. This holds through the node handles as well as in the core engine, for any operand overlap or variable order, and with an undetermined leaf the result is still right at every assignment where the operands that matter are determinate, and is undetermined, not made up, where one that matters is not.",
  ["inputs", "histories"], "all operand functions, all assignments, all sequences of operations in one manager",
  "The tests evaluate a handful of 3-variable formulas; the operators recurse on relative levels, identical operands and memo entries, so errors hide in combinations no example reaches.",
  ["bddcore/src/bdd_ops.rs", "bddcore/src/bdd.rs", "bss/src/bdd.rs"],
  [("Shannon apply recursion", "bddcore/src/bdd_ops.rs"), ("node reduction and hash-consing", "bddcore/src/bdd.rs create_node")],
  ["root node id and structure of each result", "handle methods and/or/xor/not/ite"])

p("C02", "Diagrams are canonical: same function exactly when same node",
  "Within one manager of any kind (binary, zero-suppressed, multi-valued, multi-terminal, combined, zero-suppressed multi-valued), two results denote the same function or family if and only if they are the same node, whatever route built them and whatever was collected in between. Every diagram is ordered (levels strictly decrease downwards), reduced by its kind's rule, and has no two distinct nodes with the same variable and children. Handle equality and the zero/one tests therefore decide equivalence, tautology and emptiness.",
  ["inputs", "histories"], "all pairs of construction routes for all functions, across arbitrary operation and collection histories",
  "Tests compare ids for a few fixed formulas; canonicity must survive every interleaving of building, memo hits, collection and slot reuse.",
  ["bddcore/src/bdd.rs", "bddcore/src/zdd.rs", "mddcore/src/mdd.rs", "mddcore/src/mtmdd.rs", "mddcore/src/mtmdd2.rs", "mddcore/src/zmdd.rs", "bss/src/zdd_convert.rs", "mss/src/zmdd_convert.rs"],
  [("unique tables and reduction rules", "create_node in every manager"), ("terminal value table", "mddcore/src/mtmdd.rs value"), ("family conversion", "bss/src/zdd_convert.rs, mss/src/zmdd_convert.rs")],
  ["node ids, levels and children of every reachable node"])

p("C03", "Garbage collection never damages what is kept",
  "After a collection in any of the engines, every node passed as a root and everything below it keeps its identity, its structure and its meaning. Every operation performed afterwards returns a correct result, even though reclaimed slots are reused and memoised results from before the collection survive.",
  ["histories", "inputs"], "every interleaving of building, operating, dropping, collecting and rebuilding, in every engine",
  "The tests collect once or twice on toy diagrams; a stale memo entry or unique-table entry only misleads a later operation that happens to reuse exactly the reclaimed slot.",
  ["bddcore/src/bdd.rs", "bddcore/src/zdd.rs", "mddcore/src/mdd.rs", "mddcore/src/mtmdd.rs", "mddcore/src/mtmdd2.rs", "mddcore/src/zmdd.rs", "common/src/compute_cache.rs"],
  [("mark and sweep", "gc in every manager"), ("memo filtering at collection", "common/src/compute_cache.rs retain_live, retain_live3; mddcore/src/mtmdd2.rs gc"), ("unique and value table filtering", "gc in every manager")],
  ["function of every kept root after gc", "results of later operations"])

p("C04", "Collection reclaims exactly the unreachable nodes and reuses their space",
  "Right after a collection the live node count equals the number of nodes reachable from the roots plus the permanent terminals: nothing unreachable is retained and nothing reachable is lost. Reclaimed space is reused before storage grows, so a workload that repeatedly builds, drops and collects the same amount of structure does not grow without bound, and collecting twice with the same roots changes nothing.",
  ["histories"], "all histories of building and collecting with all root sets, in every engine",
  "The tests assert a few inequalities on one fixed history; leaks or over-reclamation depend on sharing, repeated collections and partly reused free lists.",
  ["bddcore/src/bdd.rs", "bddcore/src/zdd.rs", "mddcore/src/mdd.rs", "mddcore/src/mtmdd.rs", "mddcore/src/mtmdd2.rs", "mddcore/src/zmdd.rs"],
  [("free list", "gc, new_nonterminal/alloc and live_node_count in every manager")],
  ["live node count", "node slot count in size()"])

p("C05", "A held node handle stays valid through automatic and explicit collection",
  "In the binary and multi-state layers, however handles are created, cloned, dropped and combined, and whenever collection runs (explicitly or by the threshold, however low), every handle still held keeps denoting the same function and every new result is right; this includes intermediate results, expression evaluation, enumerators, and minimal-path/cut families. An explicit collection keeps exactly what held handles and declared variables reach, and with a low threshold a workload that drops its results does not accumulate dead nodes without bound.",
  ["histories", "configurations"], "all histories of create, clone, drop, operate, analyse and collect, at every collection threshold",
  "The two auto-collection tests drop everything or keep one handle; reference counts must balance over every clone/drop order and every internal temporary.",
  ["bss/src/bdd.rs", "bss/src/zdd.rs", "mss/src/mdd.rs", "mss/src/zmdd.rs", "bss/src/bss.rs", "mss/src/mss.rs"],
  [("handle pin counts in constructor, clone and drop", "bss/src/bdd.rs, bss/src/zdd.rs, mss/src/mdd.rs, mss/src/zmdd.rs"), ("threshold collection", "maybe_gc in the same files"), ("variable pinning", "defvar / singleton")],
  ["meaning of every held handle", "live node count after an explicit collection"])

p("C06", "Memoisation is invisible: caches never change an answer",
  "Results do not depend on what was computed before: clearing caches at any moment, repeating an operation, filling or growing the caches, or mixing different operations on the same operands never changes the function returned. The operation cache itself only ever returns the value last stored under exactly the requested key (a miss is always allowed), reports its occupancy correctly, and after filtering for liveness or clearing never returns an entry that was to be discarded.",
  ["histories", "inputs"], "all operation histories, all cache states including collisions and growth, all clear points",
  "No test grows or collides the cache; a wrong key, a missed op code or a botched growth shows only after thousands of operations or on one particular collision.",
  ["common/src/compute_cache.rs", "bddcore/src/bdd_ops.rs", "bddcore/src/zdd_ops.rs", "mddcore/src/mdd_ops.rs", "mddcore/src/mtmdd_ops.rs", "mddcore/src/mtmdd2_ops.rs", "mddcore/src/zmdd_ops.rs"],
  [("direct-mapped lossy cache with growth", "common/src/compute_cache.rs"), ("per-operation keys", "cache_get/cache_put call sites in every *_ops.rs")],
  ["results with and without clear_cache", "cache get/put/len"])

p("C07", "Set-family algebra matches sets of sets",
  "On families of sets represented as zero-suppressed diagrams, union, intersection, difference, product (all pairwise unions) and division (all sets that, disjointly joined with every divisor member, give a member of the dividend) return exactly the family the set-theoretic definition gives, including families containing the empty set. This holds in the core engine and through the handles.",
  ["inputs", "histories"], "all pairs of families over all variable orders, and all operation sequences",
  "The tests check two or three tiny families and only print the division result; the terminal cases and level-skipping cases of the recursions are where it goes wrong.",
  ["bddcore/src/zdd_ops.rs", "bddcore/src/zdd.rs", "bss/src/zdd.rs"],
  [("recursive set operations", "bddcore/src/zdd_ops.rs"), ("zero-suppression", "bddcore/src/zdd.rs create_node")],
  ["family denoted by the result"])

p("C08", "Set families are built, counted and enumerated exactly",
  "The empty family, the family holding only the empty set, singletons and families built from explicit set lists (with repeated elements, repeated sets and any order) denote exactly those sets. Counting returns the number of member sets, enumeration yields each member exactly once with exactly its element labels and then ends, and the enumerator's length agrees; asking with an empty filter yields nothing, and asking for non-members counts and yields the branches of the diagram that end in the empty family.",
  ["inputs"], "all lists of sets over all label orders",
  "Tests enumerate fixed families of two or three sets.",
  ["bss/src/zdd.rs", "bss/src/zdd_count.rs", "bss/src/zdd_path.rs"],
  [("family builders", "bss/src/zdd.rs singleton, from_sets"), ("member counting", "bss/src/zdd_count.rs"), ("member iterator", "bss/src/zdd_path.rs")],
  ["count, extract, extract length"])

p("C09", "Binary system probability equals the sum over all component states",
  "For any structure function and independent component probabilities, the computed probability of the system being in the requested set of states equals the sum over all component state combinations in that set of the product of their probabilities. Probabilities of complementary requests sum to one, requesting both states gives one, neither gives zero, and generic number types (exact or interval) follow the same formula.",
  ["inputs"], "all structure functions, all probability assignments, all requested state sets, all numeric types",
  "Tests compare one or two decimals for one formula.",
  ["bss/src/bdd_prob.rs", "bss/src/bdd.rs"],
  [("memoised expectation over the diagram", "bss/src/bdd_prob.rs prob")],
  ["prob result"])

p("C10", "Binary Birnbaum importance equals the probability difference of cofactors",
  "For every component the function depends on, the reported Birnbaum measure equals the probability of the requested system states given the component is up minus that given it is down, with all others at their own probabilities. Components the function does not depend on never receive a non-zero measure.",
  ["inputs"], "all structure functions, probability assignments and requested state sets",
  "Tests check one small series-parallel example; the backward accumulation depends on node order and sharing.",
  ["bss/src/bdd_prob.rs"],
  [("top-down weight accumulation in topological order", "bss/src/bdd_prob.rs bmeas, topological_sort")],
  ["bmeas result map"])

p("C11", "Binary minimal path and cut sets are exactly the minimal ones",
  "For a monotone structure function, minimal path sets are exactly the inclusion-minimal sets of components whose functioning guarantees the system functions, and minimal cut sets exactly the inclusion-minimal sets whose failure guarantees it fails; a constant function gives the corresponding trivial family. For a non-monotone function the request is refused (no family) rather than answered wrongly, and repeated requests give the same family.",
  ["inputs", "histories"], "all structure functions (monotone or not), all variable orders, all preceding requests",
  "Tests cover a few small systems; minimality depends on every pair of subset-related implicants, and refusal on every non-monotone function.",
  ["bss/src/bdd_minsol.rs", "bss/src/bss.rs", "bss/src/bdd_dual.rs", "bss/src/zdd_convert.rs"],
  [("minimal solutions with monotonicity check", "bss/src/bdd_minsol.rs minsol, without"), ("cut sets through the dual", "bss/src/bdd_dual.rs"), ("conversion to a set family", "bss/src/zdd_convert.rs")],
  ["family returned by minpath/mincut"])

p("C12", "Gates over lists and the dual compute their defining functions",
  "And/or over a list of nodes, k-out-of-n over a list and the dual compute, at every assignment, respectively the conjunction, the disjunction, whether at least k of the list's inputs are true (for every k from zero to beyond the list length, for inputs that are arbitrary formulas, repeated or constant), and the negation of the function at the complemented assignment. The dual of the dual is the original, and empty lists give the neutral constants.",
  ["inputs"], "all input lists of arbitrary functions, all k, all assignments",
  "Tests cover k-of-n over distinct plain variables only, by minterm count.",
  ["bss/src/bdd_kofn.rs", "bss/src/bdd_dual.rs", "bss/src/bdd.rs", "bss/src/bss.rs"],
  [("memoised threshold recursion", "bss/src/bdd_kofn.rs"), ("structural dual", "bss/src/bdd_dual.rs")],
  ["function of the returned node"])

p("C13", "Binary assignment counts and enumerations are exact",
  "Counting returns exactly the number of assignments of the variables up to and including the root's level (in declaration order) whose value is in the requested set of outcomes. Enumeration yields paths that are pairwise disjoint, each consistent with only such assignments, together covering all of them, naming each decided variable with its polarity, and the enumerator's length agrees with the count.",
  ["inputs"], "all functions, all variable orders with skipped levels, all requested outcome sets",
  "Tests count a few fixed formulas, mostly without skipped levels.",
  ["bss/src/bdd_count.rs", "bss/src/bdd_path.rs"],
  [("level-gap powers in counting", "bss/src/bdd_count.rs bdd_count"), ("path stack machine", "bss/src/bdd_path.rs")],
  ["bdd_count, bdd_extract"])

p("C14", "Binary expression strings evaluate to the formula they spell",
  "A well-formed reverse-Polish expression over declared or new variables, constants, operators and saved sub-expressions evaluates to the diagram of exactly that formula, declaring unseen variables in order of first appearance, regardless of white space. A malformed expression (operands missing, leftovers, unknown constructs) is reported as an error, never as a wrong diagram and never as a crash, and leaves the manager usable.",
  ["programs", "inputs"], "all token sequences, well-formed and malformed",
  "Tests parse two or three valid expressions.",
  ["bss/src/bdd.rs"],
  [("stack evaluator", "bss/src/bdd.rs rpn")],
  ["Ok/Err and the function of the node"])

p("C15", "Multi-valued Boolean connectives compute the pointwise function",
  "For any variables with any numbers of states and any Boolean-valued multi-valued diagrams, not, and, or, xor, implication, nand, nor, xnor and if-then-else return a diagram whose value at every assignment is the connective applied to the operands' values there; replace fills in undetermined points of one diagram from another. With undetermined leaves the result is right wherever the operands that matter are determinate, and undetermined, not made up, where one that matters is not.",
  ["inputs", "histories"], "all operand functions over all mixes of state counts, all operation sequences",
  "Tests build two 3-state variables and print the result.",
  ["mddcore/src/mdd_ops.rs", "mddcore/src/mdd.rs"],
  [("k-ary apply recursion", "mddcore/src/mdd_ops.rs")],
  ["function of the result"])

p("C16", "Multi-valued arithmetic is pointwise exact, including undetermined points",
  "Addition, subtraction, multiplication, division, remainder, minimum, maximum and replace on integer-valued diagrams equal, at every assignment, the integer operation on the operands' values; an undetermined operand value or a division or remainder by zero at an assignment makes exactly that assignment undetermined. This holds for negative values, both integer widths, and through the handles and list forms of minimum and maximum.",
  ["inputs", "histories"], "all operand functions, all value ranges without overflow, all operation sequences",
  "Tests check single constants and a few table entries.",
  ["mddcore/src/mtmdd_ops.rs", "mddcore/src/mtmdd.rs", "mss/src/mdd.rs"],
  [("k-ary apply recursion on values", "mddcore/src/mtmdd_ops.rs"), ("terminal sharing", "mddcore/src/mtmdd.rs value")],
  ["function of the result"])

p("C17", "Comparisons and selection across value and Boolean diagrams are exact",
  "Equal, not-equal, less, less-or-equal, greater and greater-or-equal between integer-valued diagrams yield the Boolean diagram that is true exactly at the assignments where the comparison of the two values is true. If-then-else with a Boolean condition selects, at every assignment, the value (or Boolean) of the chosen branch, and equality, inequality and logic on Boolean diagrams agree with their truth tables; constants, including the undetermined ones, denote what their name says.",
  ["inputs", "histories"], "all pairs of value functions, all conditions, all assignments",
  "Tests compare a few constants or single nodes; a comparison that is wrong only where both relations mix across assignments passes them.",
  ["mddcore/src/mtmdd2_ops.rs", "mddcore/src/mtmdd2.rs", "mss/src/mdd.rs"],
  [("cross-forest comparison recursion", "mddcore/src/mtmdd2_ops.rs veq, vlt, lte"), ("cross-forest if-then-else", "mddcore/src/mtmdd2_ops.rs vite, vif")],
  ["function of the result"])

p("C18", "Multi-state expression strings evaluate to the formula they spell",
  "A well-formed reverse-Polish expression over declared variables, integer and Boolean constants, arithmetic, comparison, logic, min/max, if-then-else and saved sub-expressions evaluates to the diagram of exactly that formula at every assignment. A malformed expression (missing operands or leftovers) is reported as an error, never as a wrong diagram and never as a crash, and leaves the manager usable.",
  ["programs", "inputs"], "all token sequences over all variable declarations, well-formed and malformed",
  "Tests parse a few valid expressions.",
  ["mss/src/mdd.rs"],
  [("stack evaluator", "mss/src/mdd.rs rpn")],
  ["Ok/Err and the function of the node"])

p("C19", "Multi-state probability equals the sum over all component states",
  "For any value or Boolean structure function and independent component state distributions, the probability of the system being in the requested set of values equals the sum over all component state combinations with such a value of the product of their state probabilities; values the system cannot take contribute nothing. Generic number types follow the same formula, and the result does not depend on earlier queries.",
  ["inputs", "histories"], "all structure functions, all distributions, all requested value sets, all query sequences",
  "Tests compare one or two decimals on one system.",
  ["mss/src/mdd_prob.rs", "mss/src/mdd.rs"],
  [("memoised expectation over the diagram", "mss/src/mdd_prob.rs vprob, bprob")],
  ["prob result"])

p("C20", "Multi-state Birnbaum importance equals adjacent-state differences",
  "For every component the function depends on and every pair of adjacent states, the reported measure equals the probability of the requested system values given the component is in the higher state minus that given the lower state. Components the function does not depend on get no non-zero measure, and with interval probabilities the result encloses the measure for every choice of point probabilities inside the intervals.",
  ["inputs"], "all structure functions, distributions (points and intervals) and requested value sets",
  "Tests check one small system; the accumulation depends on node order, sharing and skipped levels.",
  ["mss/src/mdd_prob.rs"],
  [("top-down weight accumulation", "mss/src/mdd_prob.rs vbmeas, bbmeas, topo_postorder")],
  ["bmeas result map"])

p("C21", "Multi-state minimal path and cut vectors are exactly the minimal ones",
  "For a monotone multi-state structure function, the minimal-path family classifies under each system value exactly the component-state vectors that are minimal among those giving that value, and the minimal-cut family exactly those that are maximal among them; for a Boolean structure function the same holds for working and failed. For a non-monotone function the request is refused rather than answered wrongly, and repeated requests give the same family.",
  ["inputs", "histories"], "all structure functions (monotone or not), all state counts, all preceding requests",
  "Tests cover a couple of small systems; minimality and refusal must hold for every function.",
  ["mss/src/mdd_minsol.rs", "mss/src/mss.rs", "mss/src/zmdd_convert.rs", "mddcore/src/zmdd.rs"],
  [("minimal/maximal solutions with monotonicity check", "mss/src/mdd_minsol.rs"), ("conversion and baseline handling", "mss/src/zmdd_convert.rs, mss/src/mss.rs, mddcore/src/zmdd.rs set_baseline")],
  ["family returned by minpath/mincut"])

p("C22", "Vector families answer level, count, label and algebra queries exactly",
  "On minimal path/cut vector families, enumeration yields each member of the requested labels exactly once as a complete assignment of every declared component, counting agrees with it, and the label list is exactly the set of labels with members. Extraction at a level gives exactly the classical minimal path vectors to that level (or maximal cut vectors below it), and intersection and difference keep exactly the vectors the two families do (or do not) classify under the same label.",
  ["inputs", "histories"], "all structure functions, all levels, all pairs of families of the same kind, all label sets",
  "Tests check fixed three-component systems.",
  ["mss/src/zmdd.rs", "mddcore/src/zmdd_ops.rs", "mddcore/src/zmdd.rs"],
  [("dense enumeration, counting, level extraction", "mss/src/zmdd.rs"), ("label-wise set operations", "mddcore/src/zmdd_ops.rs")],
  ["extract, extract_level, count, labels, intersect, setdiff"])

p("C23", "Multi-state assignment counts and enumerations are exact",
  "Counting returns exactly the number of assignments of the variables up to and including the root's level whose value is in the requested set. Enumeration yields partial assignments that are pairwise disjoint, each consistent with only such assignments and together covering all of them, and its length agrees with the count.",
  ["inputs"], "all value and Boolean functions, all state counts, skipped levels, all requested value sets",
  "Tests count two fixed diagrams without skipped levels.",
  ["mss/src/mdd_count.rs", "mss/src/mdd_path.rs"],
  [("level-gap products in counting", "mss/src/mdd_count.rs"), ("path stack machine", "mss/src/mdd_path.rs")],
  ["mdd_count, mdd_extract"])

p("C24", "Graph export describes the diagram faithfully",
  "The DOT text of any node, in every diagram kind, declares each shown node once with its variable label or terminal value and lists exactly the edges of the reachable diagram with the right branch numbers, omitting only edges to the leaf that stands for nothing in that kind. Reading the graph back and evaluating it gives the same function or family.",
  ["inputs"], "all diagrams of every kind",
  "Tests only print the text.",
  ["bddcore/src/bdd_dot.rs", "bddcore/src/zdd_dot.rs", "mddcore/src/mdd_dot.rs", "mddcore/src/mtmdd_dot.rs", "mddcore/src/mtmdd2_dot.rs", "mddcore/src/zmdd_dot.rs", "common/src/dot.rs"],
  [("recursive writers with a visited set", "*_dot.rs"), ("document frame", "common/src/dot.rs")],
  ["dot text"])

p("C25", "Variables are declared once, in order, and nodes describe themselves truly",
  "Declaring a variable twice returns the same node, each new variable takes the next level, the variable order reports every variable once in declaration order (with its state count), and a variable's node evaluates to that variable. Level, label, children, constant tests, terminal value and size of any node agree with the function and the diagram reachable from it.",
  ["histories", "inputs"], "all declaration orders interleaved with operations, all nodes",
  "Tests inspect a few nodes of fixed diagrams.",
  ["bss/src/bdd.rs", "bss/src/zdd.rs", "bss/src/bdd_count.rs", "bss/src/zdd_count.rs", "mss/src/mdd.rs", "mss/src/mdd_count.rs"],
  [("variable table", "defvar, singleton, get_varorder"), ("introspection", "get_level/get_label/get_children/is_*/value/size")],
  ["introspection methods"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
