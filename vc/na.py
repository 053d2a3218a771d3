NB = "the code does not build in this sandbox (%s), so neither extraction by the compiler front end nor replay against the real code is possible"
NA = {
 "C20": "the exactness of a floating-point accumulation is outside the installed deductive verifiers' reach (no floating-point theory in Verus; cbmc cannot process this C++)",
 "C30": "Graph.h is a header of generic templates over property-carrying vertices and edges held in heap containers with filter iterators (function pointers and lambdas as predicates); the extraction to Verus does not cover iterator adaptors over std::function predicates",
 "C31": "Matching.h is 2.8 kLoC of templates over user-supplied property types; a contract for the whole augmenting-path algorithm is out of reach of modular contracts on the code as written, and its building blocks (incidence matrices, local solutions, index sets) are covered by C06-C18",
 "C32": "a whole-graph property of templates over user-supplied property types, computed through llvm::scc_iterator (GraphTraits specialisations); no contract within reach expresses the external algorithm",
 "C33": "a whole-graph property over templates built on C32's components; same reason",
 "C34": "Pantelides.h is a template over user-supplied property types whose only client is excluded from the build; its termination is a whole-history argument",
 "C35": NB % "Modeling dialect attribute printing and parsing goes through MLIR's generated parser and printer, whose code is outside any C++ verifier's reach",
 "C36": NB % "the BaseModelica dialect is excluded from the build",
 "C37": NB % "lib/Codegen is excluded from the build",
 "C38": NB % "lib/Transforms is excluded from the build",
 "C39": NB % "lib/Codegen is excluded from the build",
 "C40": NB % "the BaseModelica dialect is excluded from the build",
}
