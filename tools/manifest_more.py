NA.update({
 'W02': 'semantic preservation needs a semantics of HUGR programs; none exists in the code base to write contracts against and the passes are out of reach of the verifier (trait objects, hash maps, graph mutation).',
 'S01': 'serde derive output and the import/export code run through serde_json, capnp and the portgraph library; generated code and external crates cannot be put under contract here.',
 'S02': 'the parser is generated by pest from a grammar file and the printer delegates layout to the pretty crate; neither is within reach of a contract verifier.',
 'G01': 'the result is LLVM IR built through inkwell FFI; a contract on it needs a semantics of LLVM and of HUGR.',
 'B01': 'the builders are generic over HugrMut and mutate portgraph structures; "finishes as a graph which passes validation" would need the validity contract (V02) carried through every builder method over an assumed model of the portgraph mutations.',
 'H01': 'persistent graphs are resolved through relrc and portgraph boundary computations and trait objects; contracts would rest on an assumed model of those crates.',
 'N01': 'name mangling renders types with Display/format! machinery, which the verifier cannot interpret; string injectivity over opaque formatting cannot be stated as a contract on the real code.',
 'Y01': 'relates Rust and Python programs; no deductive verifier here covers both languages.',
})

C.update({
 'O01': 'OpTag::is_superset and the parent links are proved to be the reflexive transitive closure (a partial order with the any-tag on top), every operation\'s tag() is proved within its TAG constant and in exactly the categories its ports require; NodeHandle/handle checks are covered. cover predicates of the categories follow the documentation.',
 'O02': 'All port-numbering functions of OpType, OpTrait defaults, Signature and Port are proved for all operations, signatures of any length and offsets below 2^16. smallvec/Cow rows are vectors.',
 'O03': 'All signature-producing functions of the control-flow and call operations (85 functions) are proved for rows of any length; instantiation itself is the contract proved in T03.',
 'T01': 'Constructors, bound computation, type definitions, transformation and the read-back of serialized types are proved to keep every cached bound equal to the recursive classification. Looking up an extension type\'s definition is assumed.',
 'T02': 'check_term_type(s), is_supertype, UpperBound and part iterators are proved against the recursive meaning; reflexivity, transitivity and acceptance at super-kinds are lemmas. Tuples with spliced parts are outside the property.',
 'T03': 'All substitution functions on types, rows, signatures, terms and arguments, the part iterators and the sequence normal form are proved against a recursive specification; the identity law and "regrouping keeps the parts" are lemmas. Partial correctness where ill-kinded arguments make the code panic; Vec extensionality assumed.',
})

C.update({
 'T04': 'Equality and hashing of sums (and of rows, function types, extension types and the type enum they contain), variants(), get_variant, num_variants, as_tuple/as_option/as_unary_option and the constructors are proved against "the list of variants"; that equality is an equivalence, is exactly equality of variant lists and implies equal hasher input are lemmas. Derived PartialEq/Hash of the remaining types are assumed field-wise.',
})

C.update({
 'T05': 'SumType::check_type, TypeRow::try_from, every Value constructor, get_type and validate are proved against "the tag, number and types of the values are those of the variant", recursively for validate; constructors panic for no input whose values have types. Extension constants are abstract (each reports one type and accepts itself or not); list and array constants are checked by the executable contracts only.',
})

C.update({
 'L01': 'layout_variants_impl, layout_fields, tag_width_for_num_variants and the functions reading a sum\'s layout back are proved for all lists of variants. HashMap entries are a map; LLVM types are abstract values with equality; the crate itself cannot be built here, so the executable layer compiles the three functions cut from the current source.',
 'X01': 'register, register_updated(_ref), get, validate of registries, add_op/add_type and validate of extensions, and the set operations are proved over map and set contracts for BTreeMap/BTreeSet. Type validation of one scheme is the assumed callee contract.',
 'D01': 'join, meet, their change flags, comparison, hashing, unpacking and conversions of PartialValue, PartialSum, ValueRow and AbstractValue rows are proved for values of any nesting against the pointwise lattice; that these are a partial order with least upper and greatest lower bounds is lemmas. HashMap is a finite map, the underlying value type a discrete order.',
})

C.update({
 'V01': 'validate_children, every validity_flags and validate_op_children, validate_io_nodes and validate_cfg_edge are proved to accept exactly the prescribed kinds, shape and rows, for lists of children of any length, and to panic for none. The lists of children and edges come from the graph view; the acyclicity of a region (validate_children_dag, petgraph Topo) is the assumed callee contract, exercised by the executable contracts.',
 'V02': 'ValidationContext::{new, validate, validate_node, validate_port, validate_port_kind, validate_edge, validate_subtree, validate_linkage, compute_dominator} are proved to return Ok exactly when the stated rules hold of the graph as the view presents it, for graphs of any size and nesting, and to panic for none. Assumed: the graph view (parents form a tree, links end at existing ports), petgraph\'s dominators, and the contracts decided under O01, O02, T02-T06 and V01 for the callees.',
})

C.update({
 'H02': 'The HugrMut and HugrMutInternals edits of Hugr (nodes, ports, hierarchy, links, metadata, removal, insertion of Hugrs, regions, views, subgraphs and forests, copying of descendants, renumbering in canonical order) are proved to preserve a well-formed graph and to change exactly what is stated, over contracts for portgraph\'s graph, hierarchy and dense maps. the panics on bad arguments are covered by the executable contracts only (bounded).',
})

C.update({
 'S03': 'TryFrom<SerHugrLatest> for Hugr and TryFrom<&Hugr> for SerHugrLatest, with everything they use of Hugr (new_with_entrypoint, canonical_order, the node, port and link listings), are proved: reading fails exactly on malformed forms, never panics, and gives the graph listed; writing lists every node, link and metadata entry; and the round trip is a lemma over both contracts: the graph read is the graph written with its nodes renumbered. Assumed: portgraph, and that the derived serde code keeps the structure (exercised on random texts, bounded).',
 'W01': 'RemoveLoadConstant, RemoveConst and IdentityInsertion (verify and apply) and the view functions they use are proved, over the proved contracts of the graph edits (H02), to be refused exactly as documented, with verify and apply agreeing, and otherwise to change exactly what they say. Applying the larger rewrites (subgraph and node replacement, DFG and call inlining, loop peeling, outlining, cuts) is executed only, bounded: random valid graphs, every place, exact expected graph, validity, verify against apply.',
})
