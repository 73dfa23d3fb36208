#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property list)."""
import json, os
S="src/selection.rs"; I="src/interval.rs"; R="src/raw_interval.rs"; T="src/tine_tree.rs"; TI="src/tine.rs"; B="src/bound.rs"; N="src/normalize.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
tree=("selection tree","ordered boundary markers of the selected runs, stored as the widest open (denormalized) intervals",S+" Selection.0 / "+T+" TineTree.0")

p("C01","Selection set algebra is exact",
 "For any two selections, union, intersect and minus contain exactly the points that are in either, in both, or in the first but not the second; complement contains exactly the points of the type that are not selected. No such operation panics.",
 ["inputs"],"every pair of selections over every finite ordered type, every point of the type",
 "The suite's Selection tests are a handful of i32 doc examples with one or two intervals; overlaps, touching runs, type extremes and multi-run operands are a product space no table samples.",
 [S,T],[("Selection::union/intersect/minus/complement",S),("TineTree binary operations",T)],["Selection::contains","Selection::interval_iter"],[tree])
p("C02","In-place selection edits are exact",
 "Adding, removing or restricting a selection by one interval changes membership of exactly the points the operation names and of no other point, whatever the selection held before. No such edit panics.",
 ["inputs","histories"],"every selection (hence every history leading to it), every interval, every point",
 "The boundary-marker merge has dozens of cases keyed on what surrounds both ends of the edit; tests only reach a few with one-interval trees.",
 [S,T],[("Selection::union_in_place/minus_in_place/intersect_in_place",S),("TineTree *_in_place split-and-merge",T)],["Selection::contains"],[tree])
p("C03","Selections are canonical: same points means equal value",
 "However two selections were produced, they compare equal, hash equally and report the same intervals exactly when they contain the same points. The reported intervals are the maximal runs of consecutive points: non-empty, normalized, ascending, with at least one unselected point between neighbours.",
 ["inputs","histories"],"every selection producible by one operation from any canonical selection (induction over histories), every finite ordered type",
 "Equality across different construction routes is quantified over pairs of histories; tests compare a few literal results.",
 [S,T,N],[("denormalize before insert / normalize on return",S),("TineTree union merging",T)],["Selection ==, Hash, interval_iter"],[tree])
p("C04","Building a selection from items is exact and order-independent",
 "Collecting intervals or points into a selection, extending a selection with intervals, or converting one interval yields exactly the union of the items, in canonical form, for any order, overlap or repetition of the items (empty items included).",
 ["inputs","histories"],"every finite sequence of intervals or points up to the bound, in every order",
 "Order and overlap patterns grow factorially; tests aggregate one hand-written list.",
 [S,T],[("FromIterator/Extend/From impls",S),("TineTree::union_in_place",T)],["Selection::contains","Selection =="],[tree])
p("C05","Selection queries agree with the selected points",
 "contains, is_empty, is_full, intersects, lower_bound, upper_bound, infimum, supremum and the boundedness queries of a selection are exactly what its point set dictates: bounds are the smallest and largest selected point, infimum and supremum the excluded neighbours (absent at the end of the type), intersects means a shared point exists, and every selection is bounded.",
 ["inputs"],"every selection and pair of selections over every finite ordered type, every point",
 "Doc examples exercise one interval each; disagreement shows only for particular multi-run or extreme selections.",
 [S,T],[("Selection query methods",S),("TineTree::lower_bound/upper_bound/is_full",T)],["the query results"],[tree])
p("C06","Selection enclose and closure are the tight hull",
 "enclose and closure of a selection are the normalized interval from its smallest to its largest selected point, and empty for an empty selection.",
 ["inputs"],"every selection over every finite ordered type","Tests show one two-run example; single-point, touching-extreme and many-run shapes are not sampled.",
 [S,T],[("Selection::enclose/closure",S),("TineTree::enclose",T)],["returned Interval"],[tree])
p("C07","Selection interval iteration is exact in both directions",
 "Iterating a selection's intervals, borrowed or owning, and taking items from the front and the back in any interleaving, yields every maximal run exactly once, in order from each end, and then keeps returning nothing; its size hints never contradict the number of items left.",
 ["inputs","schedules"],"every selection up to the bound, every interleaving of front and back steps",
 "No test iterates a selection from the back or from both ends; failures need runs separated by a single missing point.",
 [S,T],[("IntervalIter / IntoIntervalIter",S),("tree Iter / IntoIter next and next_back",T)],["iterator items"],[tree])
p("C08","Selection point iteration yields each selected point once",
 "Iterating a selection's points, borrowed or owning, from the front, the back or both ends interleaved, yields exactly the selected points, each once, ascending from the front and descending from the back, and then keeps returning nothing; its size hints never contradict the number of points left.",
 ["inputs","schedules"],"every selection with few points, every interleaving of front and back steps",
 "Tests iterate one short example forward; mixed-ended iteration across run borders is unsampled.",
 [S,I],[("Iter / IntoIter next, next_back",S),("interval Iter",I)],["iterator items"],[tree])
p("C09","Every interval constructor gives the documented points, normalized",
 "Each way of creating an interval (named constructors, from bounds, from ranges, from a point, from a raw interval, default) contains exactly the points its bounds describe, with reversed bounds giving the empty interval and identical half-open bounds giving the single point. The result is always empty, a point, or a closed pair with lower strictly below upper, so intervals with equal points are equal and hash equally.",
 ["inputs"],"every constructor, every pair of bounds of every finite ordered type, every point",
 "Doc examples use mid-range i32 bounds several apart; adjacent bounds and the type's extremes are where normalization degenerates.",
 [I,N,R],[("Interval constructors and From impls",I),("Normalize for RawInterval",N),("RawInterval::new and named constructors",R)],["Interval::contains","Interval =="])
p("C10","Interval set operations are exact",
 "intersect of two intervals contains exactly the common points; union, minus and complement yield intervals which together contain exactly the points in either, in the first but not the second, and outside; yielded intervals do not overlap, are normalized, and a union that forms one run of consecutive points is yielded as one interval.",
 ["inputs"],"every pair of intervals over every finite ordered type, every point",
 "Tests on this layer are single doc examples; the interesting pairs (touching, nested, at extremes) are a product space.",
 [I,R,N],[("Interval::intersect/union/minus/complement",I),("RawInterval set operations",R)],["yielded intervals"])
p("C11","Interval enclose and closure are the least interval",
 "enclose of two intervals is the smallest normalized interval containing both (the other one if one is empty), and closure of an interval is the interval itself.",
 ["inputs"],"every pair of intervals over every finite ordered type","One doc example each.",
 [I,R,B],[("Interval::enclose/closure",I),("least/greatest_union",B)],["returned Interval"])
p("C12","Interval queries agree with the interval's points",
 "For every interval, emptiness, degeneracy, properness, openness, closedness, boundedness, lower and upper bound, infimum, supremum, contains and conversion to a non-empty option agree with its point set (normalized intervals are closed and bounded, bounds are the extreme points); size is the difference of the extreme points when representable; intersects holds exactly when a common point exists and adjacency exactly when the lower end of one equals the upper end of the other.",
 ["inputs"],"every interval and pair of intervals over every finite ordered type, every point",
 "Each predicate has two or three literal examples.",
 [I,R],[("Interval query methods",I),("RawInterval bound accessors and contains",R)],["query results"])
p("C13","Interval point iteration yields each point once from both ends",
 "Iterating an interval's points, borrowed or owning, from the front, the back or both interleaved, yields exactly its points, each once, in order from each end, and then keeps returning nothing; its size hints never contradict the number of points left.",
 ["inputs","schedules"],"every interval with few points anywhere in the type, every interleaving of front and back steps",
 "Two doc examples; intervals at the type's extremes and mixed-ended iteration are unsampled.",
 [I,R],[("Iter next/next_back",I),("RawInterval::minus",R)],["iterator items"])
p("C14","Normalization and denormalization preserve points and are canonical",
 "Normalizing or denormalizing any raw interval over a finite type never changes which points it contains; normalization is idempotent and gives raw intervals with equal points the identical closed representation, and denormalizing a normalized interval then normalizing returns it unchanged.",
 ["inputs"],"every raw interval (all eleven kinds, reversed literals included for normalization) over every finite ordered type, every point",
 "There are no direct tests of normalization; degenerate widths and extremes are exactly where it breaks.",
 [N,R],[("Normalize::normalize/denormalize",N)],["RawInterval::contains","RawInterval =="])
p("C15","Built-in integers enumerate their values without gaps",
 "For each of the twelve built-in integer types, the declared minimum and maximum are the type's extremes, the successor of a value is the next larger value and absent only at the maximum, the predecessor is its inverse and absent only at the minimum, and neither overflows.",
 ["inputs"],"all values of u8..u128, usize, i8..i128, isize",
 "No test calls them; 2^128 values cannot be enumerated.",
 [N],[("Finite impl macro",N)],["Finite::pred/succ/MINIMUM/MAXIMUM"])
p("C16","Raw interval construction and bounds are exact over any order",
 "A raw interval built from two bounds, or by a named constructor, contains exactly the values its bounds admit (reversed bounds give empty, identical half-open bounds the single point), reports those bounds, infimum and supremum back, and rebuilding it from its reported bounds returns it.",
 ["inputs"],"every bound pair and raw interval over every totally ordered type, every value",
 "The constructor tests are literals 2..4 in i32.",
 [R,B],[("RawInterval::new/open/left_open/right_open/closed",R),("lower_bound/upper_bound/infimum/supremum/contains",R)],["RawInterval API"])
p("C17","Raw interval set operations are exact over any order",
 "For raw intervals over any totally ordered type (dense or not), intersect, union, minus and complement contain exactly the corresponding values, intersects holds exactly when the intersection is non-empty in a dense order, adjacency exactly when a lower and an upper boundary coincide with at least one including the value, and all results are well-formed, mutually disjoint, and merged when they touch.",
 ["inputs"],"every pair of raw intervals over every totally ordered type, every value",
 "About 200 literal tests cover one instance per shape pair on small i32 bounds; relative positions are not exhausted.",
 [R,B],[("RawInterval::intersect/union/minus/complement/is_adjacent_to",R),("Bound::least/greatest_intersect",B)],["RawInterval API"])
p("C18","Raw interval enclose and closure are the least enclosing interval",
 "enclose of two raw intervals is the smallest interval containing both, and closure is the smallest closed interval containing the interval, over any totally ordered type.",
 ["inputs"],"every pair of raw intervals over every totally ordered type","Tests are one literal instance per shape pair.",
 [R,B],[("RawInterval::enclose/closure",R),("Bound::least_union/greatest_union",B)],["RawInterval API"])
p("C19","Bulk raw interval operations fold every item",
 "Over any sequence of raw intervals, enclose_all is the smallest interval containing all items, intersect_all contains exactly the values common to all items (all values for none), and union_all yields disjoint, unmergeable intervals that contain exactly the values in some item, in any item order.",
 ["inputs","histories"],"every sequence of raw intervals up to the bound, in every order",
 "At most a couple of lists are tested; chains that merge several earlier items at once are not.",
 [R],[("RawInterval::enclose_all/intersect_all/union_all",R)],["RawInterval API"])
p("C20","Interval text round-trips",
 "Writing any well-formed raw interval as text and parsing it back yields the same interval, for every kind and for any point type whose own text round-trips and contains no brackets, no commas, and neither of the symbols for empty and infinity; text with reversed bounds parses to the empty interval.",
 ["inputs"],"every raw interval of all eleven kinds, every value of the point type",
 "One literal per kind.",
 [R],[("Display and FromStr for RawInterval",R)],["to_string","from_str"])
p("C21","Interval parsing never panics and reads only what is written",
 "Parsing any text terminates without panic and either reports an error or returns a well-formed interval whose bounds are the values written, with the bracket kinds written; a bound that is not a value is reported as an invalid value and text that is not an interval as an invalid interval.",
 ["inputs"],"every text up to the length bound over an alphabet of all syntactically relevant characters (multi-byte ones included)",
 "Only well-formed outputs of Display are parsed in tests.",
 [R],[("FromStr for RawInterval",R)],["from_str"])
p("C22","Bound combination is exact for lower and upper bounds",
 "Combining two bounds keeps exactly the values admitted by either (union) or by both (intersect), read as lower bounds for the least-union/greatest-intersect forms and as upper bounds for the greatest-union/least-intersect forms, over any totally ordered type.",
 ["inputs"],"every pair of bounds over every totally ordered type, every value","Not tested directly.",
 [B],[("least_union, least_intersect, greatest_union, greatest_intersect",B)],["Bound API"])
p("C23","Bound accessors and adapters preserve kind and value",
 "Every accessor, adapter and conversion on a bound returns exactly the contained value and kind: finiteness/inclusivity queries partition the kinds, references and unwrapping give the value, defaults and closures are used only for the infinite bound, mapping and transferring keep the kind.",
 ["inputs"],"every bound kind and every value","One or two literals per method.",
 [B],[("Bound accessors, map, transfer, Default, From",B)],["Bound API"])
p("C24","Boundary markers order totally and combine exactly",
 "Boundary markers are totally ordered by position with the unbounded lower marker first and the unbounded upper marker last; at one position, uniting, intersecting, subtracting or inverting markers yields exactly the marker describing the resulting coverage just below, at and just above that position, or nothing when no boundary remains there.",
 ["inputs"],"every pair and triple of well-formed markers over every totally ordered type",
 "Not tested directly; only through a few tree examples.",
 [TI],[("Tine::union/intersect/minus/invert and Ord",TI)],["Tine API"])
p("C25","Interval tree edits are exact over any order",
 "Uniting, subtracting or intersecting an interval tree with one raw interval in place changes membership of exactly the values concerned, keeps the tree equal to the one built directly from the resulting maximal intervals, and never panics, for any totally ordered type (dense or not) and any previous content.",
 ["inputs","histories"],"every interval tree, every raw interval, every value, every totally ordered type",
 "The split-and-merge code has one arm per surrounding configuration; the tests hit each arm at most with single-interval trees.",
 [T,TI],[("union_in_place/minus_in_place/intersect_in_place",T)],["TineTree::contains","TineTree =="])
p("C26","Interval tree set algebra is exact over any order",
 "For any two interval trees over any totally ordered type, union, intersect, minus and complement contain exactly the corresponding values, equal the tree built directly from the resulting maximal intervals, and never panic.",
 ["inputs"],"every pair of interval trees, every value, every totally ordered type",
 "Multi-interval operand pairs are barely tested.",
 [T],[("TineTree::union/intersect/minus/complement",T)],["TineTree::contains","TineTree =="])
p("C27","Interval tree queries agree with its content",
 "contains, emptiness, fullness, bounds, enclose and closure of an interval tree are exactly those of its maximal intervals, and a tree built from any sequence of raw intervals contains exactly their union.",
 ["inputs","histories"],"every interval tree and every sequence of raw intervals up to the bound, every value, every totally ordered type",
 "Few literals; construction order is not varied.",
 [T],[("TineTree queries, From/FromIterator",T)],["TineTree API"])
p("C28","Interval tree iteration is exact in both directions",
 "Iterating an interval tree, borrowed or owning, taking items from the front and back in any interleaving, yields its maximal raw intervals exactly once, in order from each end, and then keeps returning nothing; yielded intervals are well-formed, ascending and cannot be merged, and size hints never contradict the number of items left.",
 ["inputs","schedules"],"every interval tree up to the bound, every interleaving of front and back steps",
 "No test iterates from the back.",
 [T],[("Iter/IntoIter next and next_back",T)],["iterator items"])
p("C29","Serialization round-trips every public value",
 "With the serde feature on, serializing any bound, marker, raw interval, interval, interval tree or selection and deserializing the result yields an equal value, and intervals and selections serialize transparently as their contents.",
 ["inputs","configurations"],"every value of each serializable type up to the size bound, with the serde feature enabled",
 "The serde feature has no tests at all.",
 [B,TI,R,I,T,S],[("serde derives",T)],["Serialize/Deserialize"])
p("C30","Any history of selection edits behaves like a set",
 "After any sequence of in-place and whole-value operations starting from the empty or full selection, a selection contains exactly the points the same sequence gives on mathematical sets, and equals any other selection that reached the same points by another sequence.",
 ["histories","inputs"],"every operation sequence up to the length bound with arbitrary interval arguments, every point",
 "Tests run single operations; defects surface only when one operation's leftover representation meets the next operation.",
 [S,T,N],[("Selection operations",S),("TineTree operations",T)],["Selection::contains","Selection =="],[tree])
p("C31","Large selections behave like small ones",
 "Edits, queries and iteration on a selection with many intervals (enough to span several internal storage nodes) have exactly the effect on membership, canonical form and reported intervals that they have on small ones.",
 ["inputs","histories"],"selections of a dozen or more arbitrary intervals, an arbitrary edit anywhere among them",
 "No test builds more than about eight intervals.",
 [S,T],[("TineTree split/append on BTreeSet",T)],["Selection API"],[tree])
p("C32","Interval trees are canonical: same values means equal tree",
 "Over any totally ordered type, two interval trees compare equal, and hash equally, exactly when they contain the same values, however each was produced (any order of edits, whole-value operations, complement taken twice, collection from overlapping or touching pieces, including around single missing values).",
 ["inputs","histories"],"every pair of interval trees up to the bound and every listed way of producing a tree, every totally ordered type",
 "Equality across construction routes is quantified over pairs of histories; the tests compare literal results.",
 [T,TI],[("TineTree union/minus/intersect/complement/collect, derived Eq and Hash",T),("Tine::union/intersect/minus",TI)],["TineTree ==, Hash, interval_iter"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
