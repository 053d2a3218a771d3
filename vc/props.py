"""What each check proves and explores."""
M = "lib/Modeling/"
BOXTU = [M + "Point.cpp", M + "Range.cpp", M + "MultidimensionalRange.cpp"]
LLVM = ["-lLLVM"]
BOXH = dict(src="box.cpp", repo=BOXTU, libs=LLVM)
RANGE_T = ["range.vc"]
BOX_T = ["range.vc", "sel.vc", "point.vc", "box.vc"]

BM = "lib/Parser/BaseModelica/"; VF = "lib/VariableFilter/"; LOC = "lib/Lexer/Location.cpp"
BMLEX = dict(contracts=["intlexer.vc", "floatlexer.vc", "lex_text.vc", "lex_bm.vc"], tus=[BM + "StateMachine.cpp", BM + "Token.cpp", LOC, "/verif/vc/tus/bmlexer.cpp"], roots=[r"^(Sm_|Lx_|is(Non)?Digit$|escapedChar$)"])
VFTU = [VF + "LexerStateMachine.cpp", VF + "Token.cpp", LOC, "/verif/vc/tus/vflexer.cpp"]
VFLEX = dict(contracts=["intlexer.vc", "lex_text.vc", "lex_vf.vc"], tus=VFTU, roots=[r"^(Vm_|Vx_|is(Non)?Digit$)"], dead_ok={"LexerStateMachine::step(": 2})
VFTU2 = [(VF + "VariableFilter.cpp", None, "-include", "/verif/vc/tus/clang21.h"), VF + "Parser.cpp", VF + "Tracker.cpp", VF + "Range.cpp", VF + "AST.cpp"]
LEXH = dict(src="lexer.cpp", repo=[BM + "StateMachine.cpp", BM + "Token.cpp", LOC, VF + "LexerStateMachine.cpp", VF + "Token.cpp"], libs=LLVM)
VFH = dict(src="vfilter.cpp", repo=[LOC] + [VF + x + ".cpp" for x in ("LexerStateMachine", "Token", "Parser", "Tracker", "Range", "AST", "Filter", "VariableFilter")], libs=["-l:libclang-cpp.so.20.1", "-lLLVM"], flags=["-fno-access-control", "-I/usr/lib/llvm-20/include"], per={"VariableFilter.cpp": ["-include", "/verif/vc/tus/clang21.h"]})
ISH = dict(src="indexset.cpp", repo=BOXTU + [M + "IndexSet.cpp", M + "RTree.cpp"], libs=LLVM, flags=["-fno-access-control"])
IXC = BOX_T + ["iter.vc", "card.vc", "dims.vc", "indexset.vc", "indexdims.vc", "indexops.vc", "indexmut.vc", "indexcmp.vc", "tree.vc"]
IXTU = BOXTU + [M + "IndexSet.cpp", M + "RTree.cpp"]
IXTRUST = ["trusted contract: bulk loading of the tree (RTree::setFromObjects) stores exactly the given boxes", "trusted contract: RTree::insert of one box adds exactly its points and keeps the boxes disjoint", "trusted contract: IndexSet::remove of one box removes exactly its points and keeps the boxes disjoint",
           "the tree contracts take the tree between operations as given (node boxes enclose what is below them): the functions that restructure it are covered by the bounded companion",
           "reference parameters do not alias (a set added to itself is covered by the bounded companion only)", "the rangesBegin/objectsBegin iterators visit every stored box once (compared by the bounded companion)", "llvm::sort permutes its argument"]
IXEXP = "Every set operation of IndexSet is verified by Verus against a postcondition over its set of points, for all trees, except three functions that restructure the tree through mutable node and parent pointers, which enter as trusted contracts (listed). Those three, and everything else, are run by the bounded companion against explicit sets of points, with the tree's structural invariant checked after every step. Level 'other' because of the trusted part."
def ix(roots, note, bounded): return dict(probe_rlimit=4, contracts=IXC, tus=IXTU, roots=roots, harness=ISH, level="other", explanation=IXEXP, trust=IXTRUST, gaps=["RTree::setFromObjects", "RTree::insert(Object)", "IndexSet::remove(MultidimensionalRange)", "splitNode, adjustTree, collapse (bounded companion only)"], note=note + " Trusted: three tree-restructuring functions (listed in the evidence), the extraction, clang, Verus and Z3.", bounded=bounded)
AFSRC = [M + x + ".cpp" for x in ("AccessFunction", "AccessFunctionAffineConstant", "AccessFunctionAffineMap", "AccessFunctionConstant", "AccessFunctionEmpty", "AccessFunctionGeneric", "AccessFunctionRotoTranslation", "DimensionAccess", "DimensionAccessAdd", "DimensionAccessConstant", "DimensionAccessDimension", "DimensionAccessDiv", "DimensionAccessIndices", "DimensionAccessMul", "DimensionAccessRange", "DimensionAccessSub")]
AFH = dict(src="access.cpp", repo=BOXTU + [M + "IndexSet.cpp", M + "RTree.cpp"] + AFSRC, libs=["-lMLIR", "-lLLVM"])
MCSRC = [M + x + ".cpp" for x in ("MCIM", "MCIMGroup", "MCIMGroupAffineConstant", "MCIMGroupEmpty", "MCIMGroupGeneric", "LocalMatchingSolutions", "LocalMatchingSolutionsMCIM", "LocalMatchingSolutionsVAF")]
MCH = dict(src="mcim.cpp", repo=AFH["repo"] + MCSRC, libs=["-lMLIR", "-lLLVM"])
ASTSRC = ["lib/AST/ASTNode.cpp"] + ["lib/AST/BaseModelica/%s.cpp" % x for x in "ASTNode Algorithm Annotation ArrayConstant ArrayDimension ArrayForGenerator ArrayGenerator AssignmentStatement BreakStatement Call CallStatement Class ComponentReference ComponentReferenceEntry Constant EqualityEquation Equation EquationSection Expression ExpressionFunctionArgument ExternalFunctionCall ForEquation ForIndex ForStatement Function FunctionArgument IfEquation IfStatement Member Model Modification NamedFunctionArgument Operation Package Record Reduction ReductionFunctionArgument ReturnStatement Root Statement StatementsBlock Subscript Tuple Type TypePrefix WhenEquation WhenStatement WhileStatement".split()]
PH = dict(src="parser.cpp", repo=[LOC] + [BM + x + ".cpp" for x in ("StateMachine", "Token", "Parser")] + ASTSRC, libs=["-l:libclang-cpp.so.20.1", "-lLLVM"], flags=["-I/usr/lib/llvm-20/include", "-fexceptions"])
NOPOS = r"position|location"
AFC = IXC + ["access.vc", "dimaccess.vc"]
AFTU = IXTU + AFSRC
AFTRUST = IXTRUST + ["MLIR's affine expressions and maps are modelled mathematically: the functions named ml_* in contracts/access.vc (construction, evaluation, composition, simplification) are assumed to have their documented value, on 64-bit values that fit",
           "calls of virtual functions go through one assumed contract per base method (af_*, da_*); every listed override is proved against the same contract, the structural recursion through virtual calls is assumed to terminate",
           "the iterator of IndexSet yields the points of the set, each once (lemma_ipts; compared by the bounded companion)", "the map from iteration spaces to their current points is not modelled (accesses through iteration spaces are covered by the bounded companion)"]
AFEXP = "The functions that evaluate, build, invert and map accesses are verified by Verus over a mathematical model of MLIR's affine expressions, for all expressions and points; the remaining functions (listed) are run by the bounded companion, which compares every representation with an independent evaluator. Level 'other' because of the listed assumptions and functions."
AFDEAD = {"getOffset(mlir::AffineExpr)": 1, "AccessFunctionRotoTranslation::inverse()": 1, "AccessFunctionAffineConstant::map(": 1}
def af(roots, note, bounded, gaps): return dict(probe_rlimit=4, elsewhere=IXC, dead_ok=AFDEAD, contracts=AFC, tus=AFTU, roots=roots, harness=AFH, level="other", explanation=AFEXP, trust=AFTRUST, gaps=gaps, note=note + " Assumed: MLIR's documented semantics, one contract per virtual method, the extraction, clang, Verus and Z3.", bounded=bounded)

MCTU = IXTU + [M + x + ".cpp" for x in "MCIM MCIMGroup MCIMGroupAffineConstant MCIMGroupEmpty MCIMGroupGeneric".split()]
MCTRUST = IXTRUST + ["the access function of a group is modelled by its value at each point (afx_*): evaluation and inverse mapping are assumed as proved for C10, C13 and C14",
           "calls of the virtual functions of MCIMGroup and MCIMGroup::build are checked against the contracts of MCIMGroupGeneric, which the overrides in MCIMGroupAffineConstant are proved to meet too; MCIMGroupEmpty is covered by the bounded companion",
           "the iterator of IndexSet yields the points of the set, each once (lemma_ipts; compared by the bounded companion)", "copies of groups are by value (their copy constructors are run by the bounded companion only); a moved-from pointer is not read again"]
MCEXP = "The functions of the incidence matrix and of its groups are verified by Verus for all matrices over the contracts of index sets (C06-C09) and access functions (C10-C14); the functions listed are run by the bounded companion, which compares every operation with an explicit set of pairs. Level 'other' because of the listed assumptions and functions."
def mc(roots, note, bounded, gaps): return dict(probe_rlimit=4, elsewhere=IXC, contracts=IXC + ["mcim.vc"], tus=MCTU, roots=roots, harness=MCH, level="other", explanation=MCEXP, trust=MCTRUST, gaps=gaps, note=note + " Assumed: the contracts of access functions, one contract per virtual method, the extraction, clang, Verus and Z3.", bounded=bounded)
LMTU = [M + "LocalMatchingSolutions.cpp", M + "LocalMatchingSolutionsMCIM.cpp", M + "LocalMatchingSolutionsVAF.cpp"]
LMTRUST = ["the local matching solutions of the one access function of a group, which splitGroups() enumerates, are assumed to be matchings inside the group that cover it (lms_solve; the enumeration is run by the bounded companion)"]
LMEXP = "The functions that test and decompose matrices and that count the solutions of the two common kinds of access functions are verified by Verus for all inputs; the lazy generators behind them, which hold iterators and are driven through virtual calls, are run by the bounded companion. Level 'other' because of that part and the listed assumptions."

PROPS = {
 "C01": dict(contracts=["range.vc"], tus=[M + "Range.cpp"], roots=[r"^Range_(?!begin|end)"], harness=BOXH, level="proof", note="Proof for all 64-bit ranges: every public operation of Range (constructor, equality, order, size, contains, overlaps, intersect, canBeMerged, merge, subtract) meets its set-theoretic postcondition and cannot overflow. Trusted: the extraction and its integer/container semantics, clang's syntax tree, Verus and Z3.",
   bounded="every pair of ranges with bounds in [-4,5] and with bounds among 18 extreme 64-bit values, plus random 64-bit ranges"),
 "C02": dict(contracts=BOX_T + ["iter.vc", "dims.vc"], tus=BOXTU, roots=[r"^Box_(?!subtract|lt$|gt$|compare|begin|end)", r"^Point_(takeFront|takeBack|slice|append)$"], harness=BOXH, level="proof", note="Proof for all ranks and bounds: every set operation, dimension operation and conversion of MultidimensionalRange meets a postcondition stated over its set of points (operands of equal rank, as the code asserts). The link between size() and cardinality is the position bijection proved in iter.vc. Trusted: the extraction, clang, Verus and Z3.",
   bounded="every pair of boxes of rank 1 and 2 with bounds in [-2,3], random boxes up to rank 5"),
 "C03": dict(contracts=BOX_T, tus=BOXTU, roots=[r"^Box_subtract$"], harness=BOXH, level="proof", note="Proof for all ranks and bounds: subtract() returns well-formed, pairwise disjoint boxes whose points are exactly the difference. Trusted: the extraction, clang, Verus and Z3.",
   bounded="every pair of boxes of rank 1 and 2 with bounds in [-2,3], random boxes up to rank 5"),
 "C04": dict(contracts=BOX_T + ["iter.vc"], tus=BOXTU, roots=[r"It_", r"^(Box|Range)_(begin|end)$"], harness=BOXH, level="proof", note="Proof for all ranges and boxes: each iterator step moves to the lexicographic successor and reaches end() exactly after the last point; a lemma over these contracts shows that every point is produced exactly once, in order. Trusted: the extraction, clang, Verus and Z3.",
   bounded="every range within [-6,6], every box of rank 1 to 3 with bounds in [-2,3], random boxes up to rank 6 and 5000 points"),
 "C05": dict(contracts=BOX_T + ["order.vc"], tus=BOXTU, roots=[r"^(Range|Point|Box)_(lt|gt|compare|eq|ne)$"], harness=BOXH, level="proof", note="Proof: every comparison and equality operator equals a mathematical comparison function, which lemmas show to be a total order consistent with equality. Trusted: the extraction, clang, Verus and Z3.",
   bounded="every pair of ranges with bounds in [-3,4] or extreme, every pair of points of rank up to 3 over {-1,0,1}, random boxes and points up to rank 7"),
 "C19": dict(contracts=["intlexer.vc"], tus=["/verif/vc/tus/intlexer.cpp"], roots=[r"^Int"], harness=LEXH, level="proof", note="Proof for every base from 2 to 36 and every sequence of digits: each += is exact whenever the result fits, get() returns the accumulated value, reset() clears it; a lemma lifts this to whole literals. Trusted: the extraction, clang, Verus and Z3.",
   bounded="every literal of up to 3 digits in the bases 2, 8, 10 and 16, literals around the 64-bit limit and random literals in every base from 2 to 36, histories with reset"),
 "C21": dict(BMLEX, not_own=NOPOS, harness=LEXH, level="proof", note="Proof for every text without NUL characters: each scan() skips exactly white space and comments and returns the token of the longest lexeme that follows, and the next scan starts right behind it; scan() terminates. Trusted: the extraction, clang, Verus and Z3; assumed: the reader closure of Lexer yields the characters of the text in order.",
   bounded="every text of up to 3 characters over 24 characters, random concatenations of lexemes, comments and white space with and without truncation"),
 "C22": dict(parts=[BMLEX, VFLEX], own=NOPOS, harness=LEXH, level="proof", note="Proof for both lexers and every text: each token carries the line and column of the first and last character of its lexeme. Trusted: the extraction, clang, Verus and Z3; assumed: the reader closure of Lexer yields the characters of the text in order.",
   bounded="as for C21, for both lexers"),
 "C27": dict(contracts=VFLEX["contracts"] + ["vf_parser.vc"], tus=VFTU + VFTU2, roots=[r"^(Vm_|Vx_|Vp_|is(Non)?Digit$)"], not_own=NOPOS, dead_ok={"LexerStateMachine::step(": 2, "Parser::advance(": 1}, harness=VFH, level="proof", note="Proof for every text whose integer literals fit in 64 bits: the filter's lexer and parser accept exactly the grammar, the filter receives exactly the listed entries in order, every rejection is diagnosed, and reading terminates. Trusted: the extraction, clang, Verus and Z3, the three functions that format diagnostics; not modelled: validity of regular expressions (llvm::Regex).",
   bounded="every sequence of up to 4 tokens over 14 tokens, random filters with random white space, truncations"),
 "C06": ix([r"^Ix_(overlaps|intersect|complement|contains|insert_box|add|plus|sub|minus|eq|ne)", r"^Rt_(insert_set|remove_set|contains_set|eq|ne)$"],
   "Deductive for all histories: union, difference, intersection, complement, overlap, inclusion, membership and equality meet postconditions over sets of points.",
   "random histories of up to 60 additions, removals, unions, differences, intersections and complements of ranks 1 to 3 over small universes, every operation compared with explicit point sets, plus all pairs of tiny sets"),
 "C07": ix([r"^Ix_(setFromRanges|from_boxes|from_points|size|insert_box|add_box|add_point)$", r"^Rt_(eq|ne|contains_set)$", r"^Ix_contains$"],
   "Deductive: construction from overlapping boxes and insertion leave pairwise disjoint boxes, size() is the number of points.",
   "random histories as for C06: pairwise disjointness of the stored boxes, size, order-independent traversal and compact form after every step"),
 "C08": ix([r"^Ix_(overlaps|overlaps_box|intersect|intersect_box|contains|contains_box|contains_point)$", r"^Rt_contains_set$", r"^(Mbr|Node_)"],
   "Deductive: bounding boxes are the smallest enclosing boxes, and every pruned search (overlap, intersection, membership, inclusion) over a tree whose node boxes enclose their content misses nothing.",
   "random histories as for C06 with enough boxes to split and collapse nodes: node boxes, depth, fill and parents after every step, overlap queries against a linear scan, trees of overlapping elements"),
 "C09": ix([r"^Ix_(takeFirst|takeLast|dropFirst|dropLast|slice|takeDimensions|append|prepend)$"],
   "Deductive: every projection and product meets a postcondition over sets of points for all masks and ranks.",
   "random sets of up to 12 boxes and rank up to 4, every mask and every count of dimensions"),
 "C10": af([r"^Da_", r"^(Am_build|Am_map_point|Am_withDims|Ac_point|Ag_(isAffine|getAffineMap|ctor|ctor_kind)|Af_(build|build_dims|convert)|(Ac|Cn|Em|Rt)_canBeBuilt)$"],
   "Deductive: the automatic choice of a representation, the conversions between per-dimension accesses and affine expressions, and the evaluation of every kind of per-dimension access keep the value of each expression.",
   "random access functions of up to 4 dimensions and 4 results in every representation that fits, over random points, compared with an independent evaluator", ["AccessFunctionGeneric::map(Point) (iteration spaces)", "DimensionAccess::getDimensionAccessFromExtendedMap", "DimensionAccessIndices::map"]),
 "C11": af([r"^(Am_(withDims|getWith|map_point|build)|Af_(build|build_dims|convert)|Da_build|Da_modceil|Da_\w+_expr)$"],
   "Deductive for the parts composition is made of: extension to more dimensions, conversion to and from affine expressions, evaluation. The body of combine() itself, which goes through maps of placeholder dimensions, is covered by the bounded companion.",
   "random pairs of access functions of compatible ranks, all kinds, over random points", ["AccessFunction::combine", "AccessFunction::fromExtendedMap"]),
 "C12": af([r"^Rt_(dim|off|dim_of|off_of|isInvertible|inverse)$"],
   "Deductive for all roto-translations: isInvertible() holds exactly for the bijections among them, and then inverse() is the two-sided inverse.",
   "random access functions of all kinds up to 4 dimensions, over random points, with brute-force search for two points with one image", ["AccessFunction::isInvertible of the other kinds (constantly false)"]),
 "C13": af([r"^(Rt_(map_box|map_set|usages)|Am_map_(set|point)|Ac_(map_set|point)|Da_\w+_map)$"],
   "Deductive for all affine accesses: the image of a set is exactly the set of images of its points.",
   "random access functions of all kinds and random index sets of up to 6 boxes", ["AccessFunctionGeneric::map(IndexSet)", "AccessFunctionConstant::map(IndexSet)"]),
 "C14": af([r"^(Af_inverseMap|Ac_(inverseMap|map_set|point))$"],
   "Deductive for the general inverse mapping and for constant accesses: exactly the candidates whose access is among the accessed elements.",
   "random access functions of all kinds, random accessed elements and candidates", ["AccessFunctionRotoTranslation::inverseMap", "AccessFunctionConstant::inverseMap"]),
 "C16": mc([r"^(Gg_|Ga_|Mc_(get|set|unset|empty|clear|copy|apply|plus|minus))"],
   "Deductive for all histories: setting and unsetting a pair, applying an access function to a point, a box or a set, copying, adding and subtracting matrices meet postconditions over the set of pairs.",
   "random histories of set, unset, apply, sum, difference, copies and comparisons over matrices with all kinds of access functions, every step compared with an explicit set of pairs", ["MCIM::operator==", "MCIMGroup::build (choice of the kind of group)", "MCIMGroupEmpty"]),
 "C17": mc([r"^(Ga_(ctor|hasValue|removeValues|filterValues)|Gg_(filterKeys|filterValues|getKeys|getValues|hasKey|hasValue|removeValues|build)|Mc_(flattenRows|flattenColumns|filterRows|filterColumns|withSpace|setEquationSpace|setVariableSpace|copy))"],
   "Deductive for all matrices: flattening, filtering and changes of space meet postconditions over the set of pairs.",
   "random matrices with all kinds of access functions, random filters and spaces, compared with an explicit set of pairs", ["MCIMGroup::build (choice of the kind of group)", "MCIMGroupEmpty"]),
 "C18": dict(parts=[dict(contracts=IXC + ["mcim.vc", "lms.vc"], tus=MCTU + LMTU, elsewhere=IXC + ["mcim.vc"], roots=[r"^(Mc_isValid|Mc_splitGroups|Ms_)"]),
                  dict(contracts=AFC + ["vaf.vc"], tus=AFTU + LMTU[2:], elsewhere=AFC, roots=[r"^Vs_"])],
   probe_rlimit=4, harness=MCH, level="other", explanation=LMEXP, trust=MCTRUST + LMTRUST,
   gaps=["GeneratorRotoTranslation::fetchNext, GeneratorAffineConstant::fetchNext, GeneratorDefault::fetchNext", "VAFSolutions::fetchNext, getGenerator, initialize, getSolutionsAmount of other kinds"],
   note="Deductive for matrices: the validity test of a local solution holds exactly for matchings, the decomposition of a matrix yields only matchings inside the matrix that together cover it, and the number reported for rotations and constants is the number of equation indices or of combinations of unused dimensions. The lazy enumeration for lists of access functions is covered by the bounded companion. Assumed: the listed contracts, the extraction, clang, Verus and Z3.",
   bounded="random matrices and lists of access functions of all kinds: every solution inside the matrix, no row or column twice, the number reported equals the number fetched, together they cover the matrix"),
}
