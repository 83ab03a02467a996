#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note, state=state))
B='bddcore/src/'; M='mddcore/src/'; S='bss/src/'; X='mss/src/'; C='common/src/'
TERM="a reference model (explicit table) runs in lockstep with the real library and every result is compared at every point"
p('P01','BDD operations are pointwise exact',
  'The diagram returned by not, and, or, xor, nand, nor, xnor, implication and if-then-else denotes, at every assignment of the declared variables, exactly that Boolean connective of its operands. This holds whatever operations, cache clears and collections happened before, whatever the order of levels and gaps between operands, and however large the forest is. An undetermined operand never yields a definite value that the determined operands do not settle.',
  ['inputs','histories'],'every pair/triple of functions, every variable order and every prior history of the manager',
  'Tests try a handful of fixed formulas on two or three variables in fresh managers; memo keys, level alignment and operand reordering only fail on particular operand shapes or histories.',
  [B+'bdd_ops.rs',B+'bdd.rs'],[('recursive apply with memo per operator',B+'bdd_ops.rs'),('unique table and reduction',B+'bdd.rs create_node')],
  ['BddManager operation results, read by walking nodes'],
  'runtime monitor: lockstep truth-table oracle over random and exhaustive operation histories',
  'Every operation result of the explored histories is compared with the truth table at all points; exhaustive over all pairs (and sampled triples) of 3-variable functions, sampled beyond. Trusts the 300-line table model.')
p('P02','BDD canonicity: equal functions, one node',
  'Within one manager two diagrams denote the same Boolean function exactly when they are the same node, no matter by which operations, creation orders or collections they were reached. Every diagram is reduced: no node has equal branches, no two nodes have the same variable and branches, and variables descend along every path.',
  ['inputs','histories'],'every function and every history of constructions and collections',
  'Equality is used as semantic equality by users and by the analyses; tests compare a few hand-built formulas and never after slots were recycled or tables grew.',
  [B+'bdd.rs',B+'bdd_ops.rs'],[('unique table keyed by (header, low, high)',B+'bdd.rs'),('low==high reduction',B+'bdd.rs')],
  ['node ids returned by operations, node/child/level accessors'],
  'runtime monitor: canonical-form map (function table -> node id) plus shape walk, across collections',
  'A map from function table to node id must stay injective both ways on every explored history.',
  [dict(name='unique table',meaning='existing (variable, branches) nodes',where=B+'bdd.rs')])
p('P03','BDD garbage collection preserves everything kept',
  'A collection keeps every diagram reachable from the given roots unchanged (same node, same function, same children) and reclaims every other non-terminal node, whose slots are then reused by later creations. After it, every operation gives the same functions as in a manager that never collected, including operations repeated from before the collection.',
  ['histories','inputs'],'every history of operations and collections and every choice of root sets',
  'Stale memo entries or unique-table entries only matter when a freed slot is recycled for another function and the same operands recur; tests collect once and look at counts.',
  [B+'bdd.rs',C+'compute_cache.rs'],[('mark and sweep',B+'bdd.rs gc'),('memo invalidation by liveness',C+'compute_cache.rs retain_live'),('free list',B+'bdd.rs')],
  ['gc', 'live node counts', 'operation results after gc'],
  'runtime monitor: twin execution (collecting vs never collecting) plus reachability oracle on every collection',
  'Each collection is judged against an independently computed reachable set; later operations compared with an uncollected twin.')
p('P04','ZDD operations are exact set-family algebra',
  'Union, intersection, difference, product (all pairwise unions) and quotient of set families return exactly the family that set algebra defines, for every pair of families. The quotient by a non-empty family holds exactly the sets that are disjoint from every set of the divisor and, joined with any of them, give a set of the dividend; the empty family and the family of the empty set are operands like any other.',
  ['inputs','histories'],'every pair of families over every element order, after any history',
  'Tests check small families with both operands rooted at the same element; two of these operations were wrong for other operands on the original tree.',
  [B+'zdd_ops.rs',B+'zdd.rs'],[('recursive family algebra with memo',B+'zdd_ops.rs'),('zero-suppression',B+'zdd.rs create_node')],
  ['ZddManager operation results'],
  'runtime monitor: lockstep explicit-set-family oracle, exhaustive over all pairs on 3 elements, sparse families on many',
  'All pairs of families over 3 elements per operation; random and sparse families beyond.')
p('P05','ZDD canonicity: equal families, one node',
  'Within one manager two set families are equal exactly when they are the same node, whatever construction led to them and whatever was collected in between. No node has an empty 1-branch, no two nodes coincide, and elements descend along every path.',
  ['inputs','histories'],'every family and every history of constructions and collections',
  'Tests compare a few families in fresh managers.',
  [B+'zdd.rs',B+'zdd_ops.rs'],[('unique table',B+'zdd.rs'),('zero-suppression rule',B+'zdd.rs')],['node ids and node accessors'],
  'runtime monitor: canonical-form map plus shape walk, across collections','As P02 on set families.')
p('P06','ZDD garbage collection preserves everything kept',
  'A collection keeps every family reachable from the given roots unchanged and reclaims every other non-terminal node for reuse. After it, every family operation gives the same families as in a manager that never collected.',
  ['histories','inputs'],'every history of operations and collections and every choice of root sets',
  'As for BDDs: the failing histories need slot reuse plus a repeated operation.',
  [B+'zdd.rs',C+'compute_cache.rs'],[('mark and sweep',B+'zdd.rs gc'),('memo invalidation',C+'compute_cache.rs')],['gc','results after gc'],
  'runtime monitor: twin execution plus reachability oracle on every collection','As P03 on set families.')
p('P07','Boolean multi-valued operations are pointwise exact',
  'Not, and, or, xor, if-then-else and terminal replacement on Boolean diagrams over multi-state variables return, at every state vector, exactly that connective of the operands. This holds for mixed numbers of states (including one), any level gaps and any prior history; an undetermined operand never yields a definite value that the determined operands do not settle.',
  ['inputs','histories'],'every function over every mixture of variable ranges, after any history',
  'Tests use two or three variables with 2-3 states and a few formulas.',
  [M+'mdd_ops.rs',M+'mdd.rs'],[('n-ary apply with memo',M+'mdd_ops.rs')],['MddManager operation results'],
  'runtime monitor: lockstep table oracle over mixed radices, random and exhaustive',
  'All pairs of small functions exhaustively, random histories with up to 40 states per variable.')
p('P08','Multi-terminal arithmetic is pointwise exact',
  'Addition, subtraction, multiplication, division, remainder, minimum, maximum and terminal replacement on integer-valued diagrams return the pointwise result at every state vector. Division or remainder by zero yields the undetermined value at exactly those vectors, and an undetermined operand makes the result undetermined there.',
  ['inputs','histories'],'every pair of integer-valued functions (no overflow), including zero divisors and undetermined leaves',
  'Tests evaluate a few sums and minima of variables; operand shortcuts (zero, one, equal operands, commutation) fail only on particular leaf values or shapes.',
  [M+'mtmdd_ops.rs',M+'mtmdd.rs'],[('n-ary apply with memo',M+'mtmdd_ops.rs'),('terminal table',M+'mtmdd.rs')],['MtMddManager operation results'],
  'runtime monitor: lockstep integer-table oracle with zero divisors and undetermined leaves','Results compared at all points, exhaustive on small domains.')
p('P09','Comparisons and selections across the two forests are exact',
  'Comparing two integer-valued diagrams returns the Boolean diagram that is true at exactly the state vectors where the comparison holds; selecting between diagrams by a Boolean one returns the chosen operand at every vector, for value and for Boolean branches. An undetermined value is neither equal to, less than nor greater than anything. The undetermined constants of the two kinds stay what they are named.',
  ['inputs','histories'],'every pair/triple of functions , after any history',
  'One comparison was wrong at ties on the original tree and no test noticed; tests check selected vectors.',
  [M+'mtmdd2_ops.rs',M+'mtmdd2.rs'],[('cross-forest apply with memo',M+'mtmdd2_ops.rs')],['MtMdd2Manager operation results'],
  'runtime monitor: lockstep oracle mixing value and Boolean tables','Results compared at all points, exhaustive on small domains.')
p('P10','Multi-valued canonicity: equal functions, one node',
  'Within one manager two multi-valued diagrams (Boolean or integer-valued) denote the same function exactly when they are the same node, however they were built and whatever was collected in between. No node has all branches equal, no two nodes or terminals coincide, and variables descend along every path.',
  ['inputs','histories'],'every function and every history of constructions and collections',
  'Tests compare a few hand-built functions in fresh managers.',
  [M+'mdd.rs',M+'mtmdd.rs',M+'mtmdd2.rs'],[('unique tables keyed by (header, branches)',M+'mdd.rs, mtmdd.rs'),('terminal table',M+'mtmdd.rs')],['node ids and accessors'],
  'runtime monitor: canonical-form map plus shape walk, across collections','As P02 for the three multi-valued forests.')
p('P11','Multi-valued garbage collection preserves everything kept',
  'In every multi-valued forest (Boolean, integer-valued, combined, and labelled families) a collection keeps everything reachable from the given roots unchanged and reclaims every other non-terminal node for reuse. After it, every operation, including comparisons and selections spanning both kinds of diagram, gives the same result as in a manager that never collected.',
  ['histories','inputs'],'every history of operations and collections and every choice of roots of both kinds',
  'Memo tables spanning two forests need liveness of both; the failing histories need slot reuse plus a repeated operation.',
  [M+'mdd.rs',M+'mtmdd.rs',M+'mtmdd2.rs',M+'zmdd.rs',C+'compute_cache.rs'],[('mark and sweep',M+'*.rs gc'),('memo invalidation by liveness, including cross-forest memos',M+'mtmdd2.rs gc')],['gc','results after gc'],
  'runtime monitor: twin execution plus reachability oracle on every collection','As P03 for four forests.')
p('P12','Labelled vector families: algebra and canonical form',
  'Intersection and difference of labelled vector families act label by label on exactly the vectors both operands hold, and adding a baseline vector changes only that vector and only when it was absent. Equal families are the same node, zero-suppressed and ordered.',
  ['inputs','histories'],'every pair of families over every mixture of ranges, after any history',
  'Tests check a handful of families coming from two or three structure functions.',
  [M+'zmdd.rs',M+'zmdd_ops.rs'],[('recursive family algebra',M+'zmdd_ops.rs'),('zero-suppressed unique table',M+'zmdd.rs')],['ZmddManager operation results'],
  'runtime monitor: lockstep oracle of explicit maps from vectors to labels','Exhaustive on small domains, random beyond.')
p('P13','Operation cache never returns a value not stored for the key',
  'A lookup in the operation cache returns either nothing or the value most recently stored under exactly that key; entries may be forgotten but never altered or confused, through growth, clearing and liveness scans. A liveness scan removes every entry that mentions a dead node, as an operand or as a result, and no lookup after it can return one.',
  ['histories'],'every sequence of stores, lookups, growths, clears and liveness scans',
  'Collisions, growth and scans interact only with thousands of entries of particular hash positions; tests store a few.',
  [C+'compute_cache.rs'],[('full-key comparison in a direct-mapped table',C+'compute_cache.rs'),('growth',C+'compute_cache.rs'),('retain_live',C+'compute_cache.rs')],['put/get/clear/retain results'],
  'runtime monitor: map oracle over millions of store/lookup/scan events','Each lookup judged against the last value stored.')
p('P14','Cached results never differ from fresh ones',
  'Any operation answered by a manager with a long history (full caches, recycled slots, more than 65536 nodes) gives the same function as in a fresh manager and as after clearing the caches. Clearing caches changes no diagram held.',
  ['histories'],'every history of operations, collections and cache clears before the call',
  'Tests run short scripts in fresh managers, so caches are nearly empty and never collide.',
  [C+'compute_cache.rs',B+'bdd_ops.rs',B+'zdd_ops.rs',M+'mdd_ops.rs',M+'mtmdd_ops.rs',M+'mtmdd2_ops.rs',M+'zmdd_ops.rs'],[('memo keys identify operation and operands',B+'bdd_ops.rs, '+M+'*_ops.rs'),('clear_cache',B+'bdd.rs')],['operation results'],
  'runtime monitor: differential re-execution (aged manager vs fresh manager vs cleared caches)','All six forests; results compared structurally across managers.')
p('P15','Held binary-system handles survive automatic collection',
  'Every function or family a program holds a handle to (clones, results, children obtained by navigation, enumerations in progress) keeps denoting the same thing however many automatic or explicit collections run in between and in whatever order handles are cloned and dropped. Nothing else is retained: after a collection the live nodes are those reachable from held handles.',
  ['histories','configurations'],'every history of handle creation, cloning, dropping and use, and every collection threshold',
  'Needs a collection between a particular drop and a later use; tests never reach the default threshold while enumerating or navigating.',
  [S+'bdd.rs',S+'zdd.rs',S+'bdd_path.rs',S+'zdd_path.rs'],[('reference-counted roots per handle',S+'bdd.rs, zdd.rs'),('automatic collection at operation boundaries',S+'bdd.rs make_node'),('threshold doubling',S+'bdd.rs')],['handle functions re-read after collections','live_node_count'],
  'runtime monitor: shadow table per handle re-read after every collection, exact live-set oracle','Random thresholds and the default threshold.')
p('P16','Held multi-state handles survive automatic collection',
  'Every multi-state function or vector family a program holds a handle to (clones, results, children, enumerations in progress) keeps denoting the same thing however many automatic or explicit collections run in between. Nothing else is retained: after a collection the live nodes are those reachable from held handles.',
  ['histories','configurations'],'every history of handle creation, cloning, dropping and use, and every collection threshold',
  'As for binary systems, with two forests per function and a third for families.',
  [X+'mdd.rs',X+'zmdd.rs',X+'mdd_path.rs',X+'mss.rs'],[('reference-counted roots for both forests',X+'mdd.rs'),('family roots',X+'zmdd.rs')],['handle functions re-read after collections','live_node_count'],
  'runtime monitor: shadow table per handle re-read after every collection, exact live-set oracle','Random thresholds; the family forest pushed past its own threshold.')
p('P17','Binary system probability is exact',
  'The probability computed for a function and a set of outcomes is the sum, over all assignments whose outcome is selected, of the product of the component probabilities; components without a given probability count as never occurring. It holds for every arithmetic type, for shared sub-diagrams and for skipped variables.',
  ['inputs'],'every function, every assignment of probabilities and every outcome set',
  'Tests compare a few systems with hand-computed numbers.',
  [S+'bdd_prob.rs',S+'bdd.rs'],[('memoized Shannon expansion',S+'bdd_prob.rs prob')],['prob'],
  'runtime monitor: exact finite-field and float arithmetic against the sum over all states','Finite-field values make any algebraic deviation visible; floats compared with tolerance.')
p('P18','Binary system importance is the conditional difference',
  'The importance reported for a component is the probability of the selected outcomes given the component works minus that given it fails. Every component the function depends on is reported, and no other component gets a non-zero value.',
  ['inputs'],'every function, every assignment of probabilities and every outcome set',
  'Tests compare a few systems with hand-computed numbers; ordering of weight propagation fails only for particular diagram shapes.',
  [S+'bdd_prob.rs'],[('topological backward pass',S+'bdd_prob.rs bmeas')],['bmeas'],
  'runtime monitor: exact finite-field arithmetic against conditional probabilities','As P17.')
p('P19','Multi-state probability is exact',
  'The probability computed for a multi-state function and a set of performance levels is the sum, over all state vectors whose value is in the set, of the product of the component state probabilities. Undetermined vectors contribute to no level, and Boolean functions read as levels 0 and 1.',
  ['inputs'],'every function, every state distribution and every set of levels',
  'Tests compare a few systems with hand-computed numbers.',
  [X+'mdd_prob.rs',X+'mdd.rs'],[('memoized expansion',X+'mdd_prob.rs')],['prob'],
  'runtime monitor: exact finite-field and float arithmetic against the sum over all state vectors','As P17.')
p('P20','Multi-state importance is the adjacent-state difference',
  'For each component the importance vector holds, for each pair of adjacent states, the probability of the selected levels given the upper state minus that given the lower one. Every component the function depends on is reported with one entry per adjacent pair.',
  ['inputs'],'every function, every state distribution and every set of levels',
  'Tests compare a few systems with hand-computed numbers.',
  [X+'mdd_prob.rs'],[('topological backward pass',X+'mdd_prob.rs')],['bmeas'],
  'runtime monitor: exact finite-field arithmetic against conditional probabilities','As P17.')
p('P21','Interval results enclose every point result',
  'Evaluated with interval probabilities, probability and importance return intervals containing the value for every choice of point probabilities inside the boxes, for binary and multi-state systems. A degenerate box reproduces the point result.',
  ['inputs'],'every function, every box and every point inside it',
  'A documented guarantee with no test in this repository; shortcuts valid for numbers (x-x=0, equal branches) break it for intervals.',
  [S+'bdd_prob.rs',X+'mdd_prob.rs'],[('generic arithmetic evaluated with an interval type',S+'bdd_prob.rs, '+X+'mdd_prob.rs')],['prob','bmeas with an interval type'],
  'runtime monitor: sampled points inside boxes must lie in the computed interval','Corner and interior points; a few ulps of slack, since the interval type has no directed rounding.')
p('P22','Binary minimal path and cut sets are exact',
  'For a monotone function the path family holds exactly the minimal sets of working components that make it true and the cut family exactly the minimal sets of failed components that make it false; for a non-monotone function both are refused. The dual is the function with inputs and output negated, and families from different calls combine correctly.',
  ['inputs','histories'],'every Boolean function and every sequence of calls on one manager',
  'Monotonicity detection and minimisation fail only on particular functions; tests use a few textbook systems.',
  [S+'bdd_minsol.rs',S+'bdd_dual.rs',S+'zdd_convert.rs',S+'bss.rs'],[('minimal-solution recursion with local monotonicity test',S+'bdd_minsol.rs'),('dual',S+'bdd_dual.rs'),('conversion to a set family',S+'zdd_convert.rs')],['minpath','mincut','dual'],
  'runtime monitor: families compared with the definition computed from the truth table','Random, monotone and nearly monotone functions.')
p('P23','Multi-state minimal path and cut vectors are exact',
  'For a monotone function each stratum of the path family holds exactly the minimal vectors with that value, and each stratum of the cut family exactly the maximal ones, as dense vectors over all variables, together with the trivial baseline; the level queries return the minimal vectors at or above and the maximal vectors at or below a level. Non-monotone functions are refused, and families from different calls combine correctly.',
  ['inputs','histories'],'every function over every mixture of ranges and every sequence of calls on one manager',
  'Tests use a few textbook systems with two or three components.',
  [X+'mdd_minsol.rs',X+'zmdd_convert.rs',X+'zmdd.rs',X+'mss.rs'],[('minimal/maximal-solution recursion',X+'mdd_minsol.rs'),('conversion with baseline',X+'zmdd_convert.rs'),('level extraction',X+'zmdd.rs extract_level')],['minpath','mincut','extract','extract_level','labels','count'],
  'runtime monitor: strata and levels compared with the definition computed from the table','Random, monotone and nearly monotone functions.')
p('P24','Binary counting and enumeration agree with the function',
  'Counting returns the number of assignments, of the variables from the top one of the diagram down, with a selected outcome; enumeration yields exactly those assignments, each once, and its announced length is that count. The size report equals the nodes and edges of the diagram as one can walk it.',
  ['inputs'],'every function, every outcome set',
  'Skipped levels fail only for particular diagrams; tests use a few.',
  [S+'bdd_count.rs',S+'bdd_path.rs',S+'bdd.rs'],[('level-gap weighting',S+'bdd_count.rs'),('stack iterator',S+'bdd_path.rs')],['bdd_count','bdd_extract','size'],
  'runtime monitor: counts and enumerations compared with the truth table','Small functions completely; large counts against an independent count.')
p('P25','Multi-state counting and enumeration agree with the function',
  'Counting returns the number of state vectors, of the variables from the top one of the diagram down, whose value is selected; enumeration yields exactly those vectors, each once, and its announced length is that count. The size report equals the nodes and edges of the diagram as one can walk it.',
  ['inputs'],'every function, every set of levels',
  'Skipped levels of different ranges fail only for particular diagrams; two such defects existed on the original tree.',
  [X+'mdd_count.rs',X+'mdd_path.rs',X+'mdd.rs'],[('level-gap weighting',X+'mdd_count.rs'),('stack iterator',X+'mdd_path.rs')],['mdd_count','mdd_extract','size'],
  'runtime monitor: counts and enumerations compared with the table','Small functions completely; large counts against an independent count.')
p('P26','Set-family handles behave as sets of sets',
  'Families built from lists of sets or element by element, and combined by union, intersection, difference, product and quotient, enumerate exactly the sets that set algebra defines, each once, and count them. Equality of handles is equality of families, whatever the order in which elements first appeared.',
  ['inputs','histories'],'every list of sets and every sequence of family operations',
  'Tests build two or three small families.',
  [S+'zdd.rs',S+'zdd_count.rs',S+'zdd_path.rs'],[('element declaration on first use',S+'zdd.rs'),('family algebra',B+'zdd_ops.rs'),('enumeration',S+'zdd_path.rs')],['from_sets','union..divide','count','extract'],
  'runtime monitor: lockstep explicit-family oracle through the handle interface','Random handle histories.')
p('P27','k-out-of-n and n-ary combinations are exact',
  'The k-out-of-n function is true exactly when at least k of the given functions are true, for every k including 0 and more than n, and for repeated, constant or unordered operands. The n-ary and, or, minimum and maximum equal the fold of the binary operation, empty and one-element lists included.',
  ['inputs'],'every k, every list of operand functions',
  'Tests use 2-of-3 of distinct variables.',
  [S+'bdd_kofn.rs',S+'bdd.rs',X+'mdd.rs'],[('threshold construction',S+'bdd_kofn.rs')],['kofn','and','or','min','max'],
  'runtime monitor: results compared with threshold counts and folds at every point','Arbitrary operand lists, large n.')
p('P28','Binary expressions mean what they say, and errors are errors',
  'A well-formed postfix expression evaluates to the function an independent interpreter computes for it, with names bound to the variables already declared or created in order of first use. Malformed text (missing operands, leftovers, recalling what was never saved) returns an error, never a panic or a wrong function, and leaves the manager usable.',
  ['inputs','histories'],'every expression text, in any state of the manager',
  'Tests parse a few expressions; malformed ones panicked on the original tree.',
  [S+'bdd.rs'],[('stack evaluator',S+'bdd.rs rpn')],['rpn'],
  'runtime monitor: independent interpreter as oracle over generated and mutated expressions','Includes names that collide with operators, repeated names, and pre-declared variables.')
p('P29','Multi-state expressions mean what they say, and errors are errors',
  'A well-formed, well-typed postfix expression over multi-state variables and integers evaluates to the function an independent interpreter computes for it. Malformed text (missing operands, leftovers, recalling what was never saved) returns an error, never a panic or a wrong function, and leaves the manager usable; a name that was not declared is never taken for something else.',
  ['inputs','histories'],'every well-typed or malformed expression text, in any state of the manager',
  'Tests parse a few expressions.',
  [X+'mdd.rs'],[('stack evaluator',X+'mdd.rs rpn')],['rpn'],
  'runtime monitor: independent interpreter as oracle over generated and mutated expressions','Type-confused expressions and overflow are outside the claim.')
p('P30','Pictures show the diagram that is there',
  'The graph description of a diagram, read back, evaluates to the diagram\'s function at every point: nodes carry their variable, edges their state, terminals their value. Only undrawn parts stand for the terminal the format omits, and every declared node is reachable and drawn once.',
  ['inputs'],'every diagram of every kind',
  'Tests print pictures without reading them.',
  [C+'dot.rs',B+'bdd_dot.rs',B+'zdd_dot.rs',M+'mdd_dot.rs',M+'mtmdd_dot.rs',M+'mtmdd2_dot.rs',M+'zmdd_dot.rs'],[('recursive writer with visited set',B+'*_dot.rs, '+M+'*_dot.rs')],['dot strings'],
  'runtime monitor: pictures parsed and followed at every point','All six forests and all handle kinds.')
p('P31','Work grows with diagram size, not with the number of paths',
  'Operations and analyses on diagrams with astronomically many paths but few nodes finish with work bounded by a small polynomial of the operand sizes: binary operations create at most about as many nodes as pairs of operand nodes, and probability, importance and counting do a bounded amount of arithmetic per node. Enumeration of all outcomes is incremental: its first items do not require visiting all.',
  ['inputs'],'every diagram whose number of paths exceeds its number of nodes by orders of magnitude',
  'A lost memo keeps every small test passing and makes real systems unsolvable.',
  [B+'bdd_ops.rs',B+'zdd_ops.rs',M+'mdd_ops.rs',M+'mtmdd_ops.rs',M+'mtmdd2_ops.rs',S+'bdd_prob.rs',S+'bdd_minsol.rs',S+'bdd_kofn.rs',X+'mdd_prob.rs',X+'mdd_count.rs',X+'mdd_minsol.rs'],[('memo per operation',B+'*_ops.rs, '+M+'*_ops.rs'),('memo per analysis',S+'*.rs, '+X+'*.rs')],['nodes created','arithmetic operations of an instrumented number type','CPU time of a case'],
  'runtime monitor: counted arithmetic and node creation, CPU watchdog','Limits are orders of magnitude above the cost of the current code.')
p('P32','Navigation and queries describe the function faithfully',
  'Walking a function through the handle interface (header, level, label, children, terminal tests and values) and evaluating along the way gives its value at every point; the variable order lists every declared variable once, from one end of the levels to the other. Size and live-node reports agree with what can be walked.',
  ['inputs','histories'],'every function, every declared variable set, after any history',
  'Tests query a few nodes of fixed diagrams.',
  [S+'bdd.rs',S+'zdd.rs',X+'mdd.rs'],[('accessors',S+'bdd.rs, zdd.rs, '+X+'mdd.rs'),('variable order',S+'bdd.rs get_varorder')],['get_header','get_level','get_label','get_children','is_*','value','get_varorder','size'],
  'runtime monitor: function re-evaluated through navigation only and compared with its table','Binary and multi-state handles and set-family handles.')
p('P33','Automatic collection follows its documented schedule',
  'An operation on handles collects exactly when, its result held, the live nodes have reached the current threshold. The collection keeps just the nodes reachable from held handles and terminals, and re-arms the threshold to twice the survivors, never below the value set by the user. So garbage never exceeds that bound however long a program runs, nothing is collected below it, and a lowered or raised threshold takes effect at once. Looking at diagrams (navigation, probability, importance, counting, enumeration, pictures, sizes, declaring a known variable) neither creates nor collects nodes.',
  ['histories'],'every history of handle creation and release and every threshold, set at any moment',
  'Tests check that one collection happens in one small history; a schedule that drifts (never re-armed downwards, counts the wrong half, ignores a floor) is only seen over several collections and releases of held peaks.',
  [S+'bdd.rs',S+'zdd.rs',X+'mdd.rs',B+'bdd.rs',B+'zdd.rs',M+'mtmdd2.rs'],[('live_node_count against threshold, re-armed to max(2 x survivors, floor)',S+'bdd.rs maybe_gc, '+S+'zdd.rs maybe_gc, '+X+'mdd.rs maybe_gc'),('wrapping of results, then the collector',S+'bdd.rs rewrap/wrap, '+S+'zdd.rs, '+X+'mdd.rs')],
  ['live_node_count after every call','table size','explicit gc'],
  'runtime monitor: the documented schedule replayed in lockstep over live-node counts of random handle histories','Both layers and the family layer; thresholds of zero to thousands, the default threshold, thresholds changed in the middle.')
p('P34','Memory is released',
  'When a manager and every handle, iterator and family obtained from it are dropped, in any order, all memory they used is returned. While a manager lives, repeating the same kind of work and dropping its results reaches a steady state: after collections the memory in use stops growing however many rounds are done, whatever fresh values, saved names or analyses each round uses.',
  ['histories'],'every history of work in one manager and every order in which managers, handles and iterators are dropped',
  'Tests end before growth can be seen and never look at memory; a reference cycle or a table that forgets to forget leaves every answer right.',
  [S+'bdd.rs',S+'zdd.rs',X+'mdd.rs',X+'zmdd.rs',S+'zdd_convert.rs',X+'zmdd_convert.rs',B+'bdd.rs',B+'zdd.rs',M+'mtmdd.rs',M+'mtmdd2.rs',M+'zmdd.rs'],[('weak references from handles to their manager, roots released by Drop',S+'bdd.rs, zdd.rs, '+X+'mdd.rs, zmdd.rs'),('slots, unique-table entries and values of dead nodes recycled','gc in every forest'),('headers of the family forest shared between conversions',S+'zdd_convert.rs, '+X+'zmdd_convert.rs')],
  ['bytes and blocks handed out by the global allocator'],
  'runtime monitor: counting allocator around whole lifetimes and between rounds of repeated work','Every call of both layers and of the six forests takes part.')
p('P35','The same calls give the same answers',
  'Two managers given the same calls in the same order give the same answers: the same probabilities and importances to the last bit, the same enumeration order, pictures, sizes, variable orders, counts and error messages. Nothing observable depends on the seeds of hash tables or on addresses.',
  ['histories'],'every script of calls',
  'Hash seeds differ only between runs, and tests compare sets or tolerate rounding; an order-dependent answer shows up as an unreproducible study.',
  [S+'bdd.rs',S+'bdd_prob.rs',S+'bdd_minsol.rs',S+'bdd_path.rs',S+'zdd.rs',S+'zdd_path.rs',X+'mdd.rs',X+'mdd_prob.rs',X+'mdd_path.rs',X+'mdd_minsol.rs',X+'zmdd.rs',B+'bdd_dot.rs',M+'mtmdd2_dot.rs'],[('traversal in child order, variables ordered by level','all analyses')],
  ['every answer of the handle layers'],
  'runtime monitor: transcripts of random scripts carried out in two managers with independently seeded hash tables','Answers the interface delivers as unordered maps or sets are compared as such.')
with open(os.path.join(HERE,'properties.jsonl'),'w') as f:
    for q in P:
        a=dict(files=q['files'],mechanism=[dict(name=n,where=w) for n,w in q['mech']],observe_at=q['observe'],hook_needed=None)
        if q['state']: a['state']=q['state']
        f.write(json.dumps(dict(id=q['id'],title=q['title'],statement=q['statement'],quantifier=dict(over=q['over'],text=q['qtext']),why_tests_cant=q['why'],anchors=a),ensure_ascii=False)+'\n')
json.dump(dict(version=1,setup_cmd='bash check.sh --build',
  checks=[dict(property=q['id'],quick_cmd=f"bash check.sh {q['id']} quick",thorough_cmd=f"bash check.sh {q['id']} thorough",technique=q['technique'],level='exploration',level_note=q['note']+' Held on everything explored; not a proof.') for q in P],
  not_applicable=[]),open(os.path.join(HERE,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
