#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to review)."""
import json
M='lib/Modeling/'; H='include/marco/Modeling/'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    d={"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Integer ranges behave as exact sets of consecutive integers",
 "For any two well-formed half-open integer ranges, containment, overlap, intersection, merging, subtraction, size and equality (also against a single integer) give exactly the answer the corresponding sets of integers give. Merging is possible exactly when the union is again one range; subtraction yields disjoint non-empty ranges covering exactly the difference. No operation overflows for bounds representable in 64 bits (size: for ranges of at most 2^63-1 elements).",
 ["inputs"],"all pairs of well-formed 64-bit ranges, and all integers",
 "Tests try a few dozen hand-picked small ranges; the claim is over 2^256 pairs, and the corner cases (touching bounds, single-point ranges, extreme bounds) are where the comparisons differ.",
 [M+"Range.cpp",H+"Range.h"],[("Range::contains/overlaps/intersect/canBeMerged/merge/subtract","lib/Modeling/Range.cpp")],obs=["return values of the range operations"])

p("C02","Boxes behave as exact sets of integer points",
 "For any two boxes (products of integer ranges) of the same dimensionality, containment of a point or box, overlap, intersection, equality and number of points agree exactly with the sets of integer points they denote. Two boxes are reported mergeable only when their union is a box, along the reported dimension, and merging them gives that union. Taking, dropping, slicing, prepending and appending dimensions keep exactly the selected ranges in order.",
 ["inputs"],"all ranks, all boxes and points of matching rank",
 "The tests only use rank 1-3 boxes with tiny bounds; the claim is for every rank and every relative position of the boxes in every dimension.",
 [M+"MultidimensionalRange.cpp",H+"MultidimensionalRange.h"],[("MultidimensionalRange set operations","lib/Modeling/MultidimensionalRange.cpp")])

p("C03","Box subtraction is an exact partition of the difference",
 "Subtracting a box from another box of the same dimensionality returns pairwise disjoint non-empty boxes whose union is exactly the set difference of their points. In particular, no point is lost, none is returned twice, and none of the subtracted box survives.",
 ["inputs"],"all ranks and all pairs of boxes",
 "Tests compare results for a handful of 2-D/3-D pairs; the number of relative positions grows as 13^rank.",
 [M+"MultidimensionalRange.cpp",M+"Range.cpp"],[("MultidimensionalRange::subtract","lib/Modeling/MultidimensionalRange.cpp"),("Range::subtract","lib/Modeling/Range.cpp")])

p("C04","Iteration over a range or box visits every point exactly once, in order",
 "Iterating over a range or over a box from begin to end terminates and yields every integer point of it exactly once, in strictly increasing lexicographic order, and nothing else.",
 ["inputs","histories"],"all boxes of every rank; every prefix of the iteration",
 "Tests iterate a few small boxes; odometer carry logic is exercised for one or two carries only.",
 [M+"MultidimensionalRange.cpp",M+"Range.cpp"],[("odometer step of the box iterator","lib/Modeling/MultidimensionalRange.cpp fetchNext"),("Range iterator increment","lib/Modeling/Range.cpp")])

p("C05","Points, ranges and boxes are totally ordered, consistently with equality",
 "Comparison of points, of ranges and of boxes is a strict total order: exactly one of less, equal, greater holds, it is transitive, and 'equal' coincides with the equality operators (inequality operators being their negation). Smaller rank sorts first, then lexicographic order applies.",
 ["inputs"],"all pairs and triples of points/ranges/boxes, any rank",
 "Antisymmetry and transitivity quantify over triples; tests check single pairs. Sorting the ranges of an index set with an inconsistent order silently corrupts it.",
 [M+"Point.cpp",M+"Range.cpp",M+"MultidimensionalRange.cpp"],[("compare and relational operators","lib/Modeling/{Point,Range,MultidimensionalRange}.cpp")])

p("C06","Index set operations are exact set algebra",
 "For any index sets built by any sequence of insertions and removals, membership, union, difference, intersection, complement with respect to a box, overlap, inclusion and equality agree exactly with the corresponding operations on the sets of points. No operation modifies an operand that it only reads.",
 ["inputs","histories"],"all sequences of additions/removals of points, boxes and sets, of any length and rank",
 "The tests build sets of at most a handful of boxes, which never split or collapse a tree node; the claim is over arbitrary histories of operations.",
 [M+"IndexSet.cpp",H+"IndexSet.h",H+"RTree.h"],[("IndexSet set operations","lib/Modeling/IndexSet.cpp"),("R-tree insertion/removal","include/marco/Modeling/RTree.h")])

p("C07","Index sets hold disjoint boxes: cardinality and traversal count points once",
 "The boxes stored in an index set never overlap, so that its reported number of points is exact and iterating over it yields each contained point exactly once. The compact form of an index set denotes the same points with pairwise disjoint boxes, and two non-empty sets are equal exactly when they hold the same points, whatever their history.",
 ["inputs","histories"],"all index sets reachable by any history, any rank",
 "Double counting needs specific overlaps among three or more boxes inserted in a specific order, which example-based tests do not enumerate.",
 [M+"IndexSet.cpp",H+"RTree.h"],[("insertion removes already covered points","lib/Modeling/IndexSet.cpp"),("setFromRanges overlap resolution","lib/Modeling/IndexSet.cpp")])

p("C08","Spatial index search returns every overlapping element",
 "Each node of the spatial index has a bounding box which is exactly the smallest box enclosing everything below it, all leaves are at the same depth, and non-root nodes are filled within the configured bounds. Consequently a point or box query never misses a stored element that contains or overlaps the query.",
 ["inputs","histories"],"all trees produced by bulk construction and by any history of insertions and removals",
 "A wrong bounding box is invisible until a later query is pruned by it; tests query only small trees right after construction.",
 [H+"RTree.h",M+"RTree.cpp"],[("bounding box computation","lib/Modeling/RTree.cpp getMBR"),("node split and propagation","include/marco/Modeling/RTree.h")])

p("C09","Dimension selection and concatenation on index sets are exact",
 "Slicing, taking or dropping dimensions of an index set gives exactly the projection of its points; prepending or appending another index set gives exactly the cartesian product in the stated order.",
 ["inputs"],"all index sets and all dimension masks",
 "Projection may merge overlapping boxes; tests use one or two boxes.",
 [M+"IndexSet.cpp"],[("slice/takeFirstDimensions/.../prepend/append","lib/Modeling/IndexSet.cpp")])

p("C10","Access functions evaluate to the same point in every representation",
 "Every concrete kind of access function (constant, roto-translation, affine, generic) built for the same per-dimension expressions maps any point of its domain to the same result point: each coordinate is the value of the corresponding expression. A result given by a range or by an iteration space yields every combination of their values, each once. The representation chosen automatically never changes the mapping.",
 ["inputs"],"all access functions made of constants, dimensions, +, -, *, / and all points",
 "Tests evaluate one or two points per kind.",
 [M+"AccessFunction.cpp",M+"AccessFunctionRotoTranslation.cpp",M+"AccessFunctionAffineMap.cpp",M+"DimensionAccess.cpp"],[("map(Point)","lib/Modeling/AccessFunction*.cpp"),("canBeBuilt/fromAffineMap","lib/Modeling/AccessFunction.cpp")])

p("C11","Composition of access functions composes their mappings",
 "Combining an access function f with an access function g yields a function that maps every point p to g applied to f(p), the union over the values of f(p) when f accesses ranges or iteration spaces (as long as g reads each of those values at most once).",
 ["inputs"],"all composable pairs of access functions and all points",
 "Tests check single offsets; composing rotations with translations has order-dependent index arithmetic.",
 [M+"AccessFunction.cpp",M+"AccessFunctionRotoTranslation.cpp",M+"AccessFunctionConstant.cpp",M+"AccessFunctionGeneric.cpp"],[("combine","lib/Modeling/AccessFunction*.cpp")])

p("C12","Inverse access functions undo the access",
 "When an access function is reported invertible, its inverse exists and composing the two in either order maps every point to itself; a function that is not a bijection of points is never reported invertible.",
 ["inputs"],"all roto-translations and all points",
 "Injectivity quantifies over all pairs of points; permutation handling differs for permutations of order greater than two, which the tests do not use.",
 [M+"AccessFunctionRotoTranslation.cpp"],[("isInvertible/inverse","lib/Modeling/AccessFunctionRotoTranslation.cpp")])

p("C13","The image of an index set is the set of images of its points",
 "Mapping an index set through an access function gives exactly the set of images of its points. Mapping a box through an affine access contains the image of each of its points, and nothing else when the access uses each dimension at most once: the box is shifted, permuted or collapsed without losing or inventing indices.",
 ["inputs"],"all affine unit-coefficient access functions and all boxes/index sets",
 "Tests map single boxes; the claim is over every set and every combination of constants, permutations and offsets.",
 [M+"AccessFunctionRotoTranslation.cpp",M+"AccessFunctionConstant.cpp",M+"AccessFunction.cpp",M+"DimensionAccess.cpp"],[("map(IndexSet)","lib/Modeling/AccessFunction*.cpp")])

p("C14","Inverse mapping yields exactly the iterations that access the given elements",
 "Given accessed elements and a set of candidate iterations, the inverse mapping of an access function returns exactly those candidate iterations whose access falls within the accessed elements.",
 ["inputs"],"all access functions, all accessed sets and all parent sets",
 "Needs accesses with dropped or constant dimensions together with parent sets of several boxes.",
 [M+"AccessFunction.cpp",M+"AccessFunctionRotoTranslation.cpp",M+"AccessFunctionConstant.cpp"],[("inverseMap","lib/Modeling/AccessFunction*.cpp")])

p("C16","Incidence matrix operations are exact element-wise boolean operations",
 "A compressed incidence matrix over (equation index, variable index) pairs reports exactly the pairs that were set and not unset since, for any history of operations; adding two matrices over the same spaces gives the element-wise or, subtracting gives the element-wise and-not, and equality is element-wise. (Spaces of positive rank, fewer than 2^63 points; access functions that access one element per equation index.)",
 ["inputs","histories"],"all histories of set/unset/+/- on pairs, boxes and access functions",
 "Pairs are grouped by access function in compressed form; tests use a single group at a time.",
 [M+"MCIM.cpp",M+"MCIMGroup.cpp",M+"MCIMGroupAffineConstant.cpp",M+"MCIMGroupGeneric.cpp",M+"MCIMGroupEmpty.cpp"],[("MCIM::set/unset/get/+=/-=","lib/Modeling/MCIM.cpp")])

p("C17","Incidence matrix projections and filters are exact",
 "Flattening a compressed incidence matrix onto rows (columns) returns exactly the equation (variable) indices with at least one entry, filtering by rows or columns keeps exactly the entries in the selected rows or columns, and changing the equation or variable space (withSpace, setEquationSpace, setVariableSpace) keeps exactly the entries inside the new spaces. (Spaces of positive rank, fewer than 2^63 points; access functions that access one element per equation index.)",
 ["inputs"],"all incidence matrices and all filters",
 "Tests cover a few hand-written 1-D/2-D matrices.",
 [M+"MCIM.cpp",M+"MCIMGroup.cpp"],[("flattenRows/flattenColumns/filterRows/filterColumns","lib/Modeling/MCIM.cpp")])

p("C18","Every local matching solution is a valid matching inside the incidence matrix",
 "Every local matching produced for an incidence matrix, or for a list of access functions whose accesses lie in the variable space, only contains pairs of that matrix and never uses a row or a column twice; together the matchings cover every pair of the matrix, and the number of solutions reported is the number that can be fetched.",
 ["inputs"],"all incidence matrices and access function lists",
 "Tests compare explicit lists for two or three systems; the claim is over every matrix and the enumeration order.",
 [M+"LocalMatchingSolutionsVAF.cpp",M+"LocalMatchingSolutionsMCIM.cpp",M+"LocalMatchingSolutions.cpp"],[("solution enumeration","lib/Modeling/LocalMatchingSolutions*.cpp")])

p("C19","Integer literals get their exact value",
 "Reading the digits of an integer literal in any supported base accumulates exactly the mathematical value of the literal whenever it fits in 64 bits, and clearing starts a fresh literal.",
 ["inputs","histories"],"all digit sequences of any length within the representable range",
 "Tests use a few short literals.",
 ["include/marco/Lexer/IntegerLexer.h"],[("IntegerLexer::operator+= / get","include/marco/Lexer/IntegerLexer.h")])

p("C21","Tokenization is total, lossless and longest-match",
 "For every input text, the Base Modelica lexer produces tokens until an end-of-file or error token, always consumes at least one character per token, and each token's kind is determined by the longest lexeme starting at its position. Only white space and comments are skipped: no other character is lost or consumed twice, and keywords, operators and identifiers get the value and kind of their lexeme.",
 ["inputs","histories"],"all input texts of any length",
 "Each test feeds one lexeme; the claim concerns every juxtaposition of lexemes and every truncation of the input.",
 ["lib/Parser/BaseModelica/StateMachine.cpp","include/marco/Lexer/Lexer.h"],[("lexer state machine step","lib/Parser/BaseModelica/StateMachine.cpp"),("driver loop","include/marco/Lexer/Lexer.h scan")])

p("C22","Token locations delimit exactly the lexeme in the source text",
 "Every token of the Base Modelica and variable-filter lexers carries the line and column of the first and last character of its lexeme, counting lines from one and restarting columns after each line break.",
 ["inputs"],"all texts, all tokens",
 "Only single-line single-token inputs are checked by tests.",
 ["lib/Parser/BaseModelica/StateMachine.cpp","lib/VariableFilter/LexerStateMachine.cpp"],[("position bookkeeping","advance/setTokenBeginPosition/setTokenEndPosition")])

p("C23","Expressions are parsed according to precedence and associativity",
 "Whenever an expression is accepted, the resulting tree reads back exactly the consumed token sequence, and is grouped by the Modelica rules: or, and, not, relations, additive, multiplicative, power and primaries in increasing precedence, with additive and multiplicative operators left-associative, unary sign below multiplication and ranges above logical operators.",
 ["inputs"],"all token sequences and nesting depths",
 "No existing test runs the parser; the claim is over all expressions.",
 ["lib/Parser/BaseModelica/Parser.cpp","include/marco/Parser/BaseModelica/Parser.h"],[("parseExpression ... parsePrimary","lib/Parser/BaseModelica/Parser.cpp")])

p("C24","Parsing any text terminates with a tree or a diagnostic",
 "For every input text, well-formed or not, parsing terminates without crashing and either returns a syntax tree or reports at least one error; rejecting an input never happens silently.",
 ["inputs"],"all input texts",
 "Crashes and endless loops are triggered by specific malformed or truncated inputs; no existing test runs the parser.",
 ["lib/Parser/BaseModelica/Parser.cpp"],[("EXPECT/TRY error propagation and section loops","lib/Parser/BaseModelica/Parser.cpp")])

p("C25","Classes, equations and statements are parsed faithfully",
 "For every accepted model, members, equations, algorithms, statements and branches appear in the tree with the order, number, kind and attributes (initial, public/protected, qualifiers, conditions) they have in the source, and every construct of the supported grammar is accepted.",
 ["inputs"],"all models of the supported grammar",
 "No existing test runs the parser.",
 ["lib/Parser/BaseModelica/Parser.cpp","lib/AST/BaseModelica"],[("section and statement parsing","lib/Parser/BaseModelica/Parser.cpp")])

p("C27","Variable filters are read faithfully",
 "Every textual variable filter whose integer literals fit in 64 bits is either rejected with a diagnostic or turned into exactly the listed variables, array slices (with their bounds, unbounded where requested), derivatives and regular expressions, in order; separators are skipped and reading always terminates. A variable is then reported visible exactly when the filter is empty, lists it or matches it, with the listed slices cut or extended (unbounded) to its rank.",
 ["inputs"],"all filter strings",
 "No existing test covers the variable filter.",
 ["lib/VariableFilter/Parser.cpp","lib/VariableFilter/LexerStateMachine.cpp"],[("filter grammar","lib/VariableFilter/Parser.cpp"),("filter lexer","lib/VariableFilter/LexerStateMachine.cpp"),("queries","lib/VariableFilter/VariableFilter.cpp getVariableInfo")])

NA=[
("C20","Real literals are correctly valued","Reading a real literal gives the double nearest to its mathematical value.",["inputs"],"all literals","tests use a few short literals",["include/marco/Lexer/FloatLexer.h"]),
("C30","Graphs keep vertices and edges consistent","After any history of additions and removals, traversing vertices, edges, incident edges and neighbours of a graph visits exactly the live elements once.",["histories"],"all histories","tests use tiny graphs",[H+"Graph.h"]),
("C31","Matching assigns every equation index to a distinct variable index","When matching succeeds every scalar equation is matched with exactly one scalar variable it accesses and no variable is matched twice; when it fails no perfect matching exists.",["inputs"],"all systems","no executable test reaches the algorithm",[H+"Matching.h"]),
("C32","Strongly connected components partition the equations and respect dependencies","The computed components partition the matched equations and are ordered so that dependencies come first.",["inputs"],"all systems","no executable test",[H+"DependencyGraph.h",H+"ArrayEquationsDependencyGraph.h",H+"ScalarEquationsDependencyGraph.h"]),
("C33","Schedules compute every variable before it is read","Each scalar equation is scheduled exactly once and after the equations it depends on, for the reported iteration directions.",["inputs"],"all systems","no executable test",[H+"Scheduling.h"]),
("C34","Index reduction terminates with an index-1 system","Pantelides' algorithm differentiates exactly the structurally necessary equations.",["inputs"],"all systems","no executable test",[H+"Pantelides.h"]),
("C35","Custom attribute syntax round-trips","Printing and parsing (or bytecode writing and reading) a modelling attribute gives back the same value.",["inputs"],"all attributes","lit tests not buildable here",["lib/Dialect/Modeling/IR/Properties.cpp","lib/Dialect/Modeling/IR/Attributes.cpp"]),
("C36","Operation folding and canonicalization preserve values","Folding a Base Modelica operation on constants gives the value the operation computes at run time.",["inputs","programs"],"all operations","lit tests only",["lib/Dialect/BaseModelica/IR/Ops.cpp"]),
("C37","Lowering from the syntax tree to the dialect preserves the model's meaning","The generated operations denote the equations and algorithms of the source model.",["programs"],"all models","lit tests only",["lib/Codegen"]),
("C38","Model transformations preserve the solutions of the system","Equation splitting, explicitation, inlining, CSE, scheduling and solver-specific lowering preserve the solutions of the model.",["programs"],"all models","lit tests only",["lib/Transforms" ,"lib/Dialect/BaseModelica/Transforms"]),
("C39","Lowering to LLVM preserves run-time semantics","Code generated for operations, functions and the simulation driver computes what the dialect specifies.",["programs"],"all programs","lit tests only",["lib/Codegen/Conversion"]),
("C40","Symbolic derivation is the mathematical derivative","The derivative function or expression generated for an operation equals the derivative of the operation.",["inputs","programs"],"all functions","lit tests only",["lib/Dialect/BaseModelica/IR/Ops.cpp"]),
]
for i,t,s,o,q,w,f in NA:
    p(i,t,s,o,q,w,f,[(t,f[0])])
P.sort(key=lambda d:d["id"])
with open('/verif/properties.jsonl','w') as fh:
    for d in P: fh.write(json.dumps(d)+"\n")
print(len(P))
