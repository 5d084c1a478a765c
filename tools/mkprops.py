import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if obs: a["observe_at"]=[obs]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
IO="hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs"
IT="hugr-core/src/std_extensions/arithmetic/int_types.rs"
p("A01","Integer constant folding computes the documented result",
  "For every standard integer operation and every width from 1 to 64 bits, folding the operation on constant inputs never panics and gives exactly the result the operation is documented to have (two's-complement wrap-around, signed/unsigned interpretation, floor division with non-negative remainder, shifts and rotations of any amount, an error value where the checked form says so). The folded constant always has the operation's declared output type. Inputs on which the operation is documented to panic or whose types do not match are left unfolded.",
  ["inputs"],"all integer operations, all widths 2^0..2^6, all pairs of operand values (up to 2^128 pairs per operation)",
  "Unit tests fold a handful of constants per operation; the failures hide at the minimum signed value, full 64-bit width, shift amounts at or above the width, negative divisors and narrowing at the last width.",
  [IO,IT],[("integer op folders",IO+" set_fold"),("signed division helper",IO+" divmod_s"),("width arithmetic",IO+" bitmask_from_width")],obs="ExtensionOp::constant_fold / OpDef constant folder result")
p("A02","Integer constants are always in range and their two readings agree",
  "An integer constant can be created for exactly those (width, value) pairs where the width is one of the seven supported widths and the value is representable in it, unsigned or signed. Its unsigned reading returns the value it was created with (or the two's-complement image of a signed one), its signed reading is the unique value congruent to it in the signed range, and two constants are equal exactly when width and bit pattern are equal. A width type argument is accepted exactly for 0 to 6.",
  ["inputs"],"all 8-bit width exponents and all 64-bit values, signed and unsigned",
  "Tests check a few widths and values; off-by-one limits at each width and sign boundary need every value of every width.",
  [IT],[("constructors and readings",IT+" ConstInt::{new_u,new_s,value_u,value_s}"),("width parsing",IT+" get_log_width")],obs="ConstInt constructors/accessors")
p("A03","Conversion, boolean and floating-point folds agree with the operations",
  "Folding a numeric conversion, boolean or floating-point operation on constants never panics and gives exactly the documented result: truncation yields a value only when the truncated float is representable in the target width, bit casts preserve all 64 bits, integer/boolean casts preserve the value, boolean operations follow their truth tables, comparisons follow IEEE order. A constant that could not be a legal float (NaN or infinity) is never produced, and the produced constants have the declared output types.",
  ["inputs"],"all float bit patterns, all integer constants of all widths, all boolean input rows",
  "Tests try a few numbers per conversion; errors appear at the edges of float/integer ranges (2^63, 2^64, -2^(N-1), subnormals) that sampling rarely hits.",
  ["hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs","hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs","hugr-core/src/std_extensions/logic.rs","hugr-core/src/std_extensions/arithmetic/float_types.rs"],
  [("conversion folders","hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs"),("float folders","hugr-core/src/std_extensions/arithmetic/float_ops/const_fold.rs"),("logic folders","hugr-core/src/std_extensions/logic.rs LogicOp::post_opdef")],obs="ExtensionOp::constant_fold")
p("E01","Envelope headers round-trip and unknown headers are rejected",
  "Reading back a written envelope header yields exactly the payload format and compression flag that were written, and consumes exactly the header's ten bytes. Any input that does not start with the magic number, names an unknown payload format, or is shorter than a header is rejected with an error rather than misread; no byte sequence makes the reader panic.",
  ["inputs","configurations"],"all envelope configurations and all byte strings offered as a header",
  "Tests read a few fixed headers; every one of the 2^80 ten-byte prefixes (and every truncation) must be classified correctly.",
  ["hugr-core/src/envelope/header.rs","hugr-core/src/envelope.rs"],[("header read/write","hugr-core/src/envelope/header.rs EnvelopeHeader::{read,write}"),("format numbers","hugr-core/src/envelope/header.rs EnvelopeFormat")],obs="EnvelopeHeader::read / write_envelope / read_envelope",hook="none (public API)")
p("T01","A type is copyable exactly when all of its components are",
  "A sum, tuple or row is classified copyable exactly when every type occurring in every variant is copyable; function types are always copyable; a type variable or extension type has the bound it was declared with. The least upper bound of a set of bounds is linear if any member is and copyable otherwise, independent of order and grouping, and a bound contains another exactly when it is at least as permissive.",
  ["inputs"],"all types of any nesting depth and all lists of bounds",
  "Linearity is what stops qubits being copied or dropped; tests check a few small types, but the classification is recursive over unbounded type structure and cached inside types.",
  ["hugr-core/src/types.rs","hugr-core/src/types/type_row.rs","hugr-core/src/types/custom.rs"],[("bound lattice","hugr-core/src/types.rs TypeBound::{union,contains}, least_upper_bound"),("recursive classification","hugr-core/src/types.rs TypeEnum::least_upper_bound, SumType::bound"),("row bound","hugr-core/src/types/type_row.rs")],obs="Type::least_upper_bound, Type::copyable, SumType::bound")
p("T02","Type arguments are accepted exactly when they inhabit the parameter kind",
  "A list of type arguments is accepted for a list of type parameters exactly when the lengths match and each argument belongs to its parameter's kind: types up to their bound, naturals up to their upper bound (no bound meaning any), strings, byte strings, floats, constants of the given type, lists and tuples (with a determined number of elements) element by element, and variables whose declared kind is a sub-kind. The sub-kind relation is reflexive and transitive, and an argument accepted at a kind is accepted at every super-kind.",
  ["inputs"],"all type arguments and kinds of any nesting depth",
  "Every call to a polymorphic function or extension op relies on this check; tests enumerate a small table of pairs, while arguments and kinds nest without bound.",
  ["hugr-core/src/types/type_param.rs"],[("argument check","hugr-core/src/types/type_param.rs check_term_type, check_term_types"),("sub-kinds","hugr-core/src/types/type_param.rs Term::is_supertype, UpperBound::contains/valid_value")],obs="check_term_type, PolyFuncType::instantiate, op instantiation")
p("T03","Substitution replaces exactly the variables and keeps everything else",
  "Substituting type arguments into a type, kind, row or signature replaces each variable by the corresponding argument and leaves every other constructor, its order and its payload unchanged; substituting each variable for itself is the identity on terms without list/tuple concatenation. A row variable is replaced by the whole row it stands for, in place, and lists or tuples built from parts are flattened in order without dropping, duplicating or reordering elements.",
  ["inputs"],"all types, kinds, rows and argument lists of any size and depth",
  "Monomorphisation and op instantiation substitute into arbitrarily nested terms; tests cover a few shapes and miss constructors that are rarely substituted into.",
  ["hugr-core/src/types/type_param.rs","hugr-core/src/types.rs","hugr-core/src/types/type_row.rs","hugr-core/src/types/signature.rs"],[("term substitution","hugr-core/src/types/type_param.rs Term::substitute"),("type substitution","hugr-core/src/types.rs TypeBase::substitute, Substitution"),("sequence normal form","hugr-core/src/types/type_param.rs Term::new_seq_from_parts, ListPartIter, TuplePartIter")],obs="Type::substitute, Signature::substitute, PolyFuncType::instantiate")
p("T04","Equal sum types are interchangeable",
  "Two sum types that denote the same list of variants compare equal, hash equally, report the same number of variants and the same row for every tag, whichever way they were built (as a unit sum of given size or from explicit rows). Comparing unequal variant lists always gives false.",
  ["inputs"],"all pairs of sum types of any size",
  "Edges are type-checked by equality and types are cache keys by hash; tests compare a couple of boolean/unit encodings only.",
  ["hugr-core/src/types.rs"],[("equality, hash and variants","hugr-core/src/types.rs SumType::{new,eq,hash,num_variants,get_variant,variants}")],obs="SumType/Type ==, Hash, get_variant")
p("T05","Only constants that inhabit a type can be built at that type",
  "A sum constant can be built with a tag and values exactly when the tag is one of the type's variants, the number of values is that variant's length and each value has the type at that position; otherwise an error is returned and nothing panics. Validating a constant accepts it exactly when it inhabits its type at every level: each element of a sum, list or array constant inhabits its own type and has the type required at its position, extension constants accept themselves and function constants define a monomorphic function. The type reported by any constant built this way is a type it passes the check for.",
  ["inputs"],"all sum types, tags and lists of constant values, of any nesting",
  "Constant loading, folding and lowering trust that values match their types; tests check a few shapes, while tags, arities and nesting are unbounded.",
  ["hugr-core/src/types/check.rs","hugr-core/src/ops/constant.rs","hugr-core/src/std_extensions/collections/array/array_value.rs","hugr-core/src/std_extensions/collections/list.rs"],[("sum check","hugr-core/src/types/check.rs SumType::check_type"),("value construction","hugr-core/src/ops/constant.rs Value::sum, tuple, some, none, unit_sum, get_type, validate")],obs="Value::sum / SumType::check_type results, Value::get_type")
p("D01","The dataflow value domain is a lattice with exact change reporting",
  "Joining (or meeting) two abstract values gives their least upper (greatest lower) bound: the operations are commutative, associative and idempotent, bottom and top are their neutral and absorbing elements, and anything either input describes is still described by the join. (A meet is the greatest lower bound for values whose variants with the same tag have equally many fields; all values of one type do.) The partial order is the one of the lattice, equal values hash equally, and joining, meeting and taking a value apart are monotone. The operation reports a change exactly when the stored value actually changed, so the analysis fixpoint is reached and not cut short.",
  ["inputs"],"all abstract values, including sums with any number of tags and nested elements",
  "Termination and soundness of constant folding rest on these laws for all nested values; tests and sampled proptests explore shallow values and never check every law.",
  ["hugr-passes/src/dataflow/partial_value.rs","hugr-passes/src/dataflow/value_row.rs"],[("join/meet","hugr-passes/src/dataflow/partial_value.rs PartialValue::{join_mut_value_handle.., try_join_mut}, PartialSum::{try_join_mut,try_meet_mut}, Lattice for PartialValue")],obs="Lattice::join_mut/meet_mut return value and resulting PartialValue")
p("O01","Operation tags form a consistent hierarchy",
  "The is-a relation between operation tags is a partial order whose greatest element is the any-tag, the none-tag covers nothing but itself, and the relation is exactly the reflexive transitive closure of the declared parent links. An operation's run-time tag is always within its static tag, so a typed handle can be made for an operation exactly when the handle's tag covers the operation's tag. The category tags (static input, static output, dataflow child, dataflow parent) cover an operation exactly when it has such a port or inner dataflow signature.",
  ["inputs"],"all pairs and triples of tags and all operation kinds",
  "Hierarchy validation and typed handles use this relation for every node; tests check a few pairs.",
  ["hugr-core/src/ops/tag.rs","hugr-core/src/ops/handle.rs"],[("superset relation","hugr-core/src/ops/tag.rs OpTag::is_superset, immediate_supersets"),("typed handles","hugr-core/src/ops.rs OpTrait::try_node_handle")],obs="OpTag::is_superset")
p("O02","Every operation's ports are numbered and classified consistently",
  "For every operation the ports in each direction are, in order, its value ports as listed in its signature, then at most one static port, then the control-flow or order ports; the total count is the sum of the three. The kind reported for a port offset is the value type at that position, the static kind, or the other kind accordingly, and the offsets reported for the static port and the other port are offsets which have exactly that kind. Calls and function loads have a static function input of the called function's type, constant loads a static constant input, function definitions, declarations and constants the corresponding static output. (Offsets below the number of ports, and below 2^16.)",
  ["inputs"],"all operations with signatures of any length and all port offsets in both directions",
  "Validation, serialisation and every rewrite index ports by these numbers; tests look at a few operations and offsets.",
  ["hugr-core/src/ops.rs","hugr-core/src/types/signature.rs","hugr-core/src/core.rs"],[("port classification","hugr-core/src/ops.rs OpType::{port_kind,port_count,static_port,other_port,value_port_count}"),("signature ports","hugr-core/src/types/signature.rs Signature::{port_type,port_count,in_port_type,out_port_type}"),("port handles","hugr-core/src/core.rs Port::{new,as_directed}")],obs="OpType::port_kind/port_count/static_port/other_port")
p("O03","Structured control-flow operations expose consistent signatures",
  "For a conditional, each case's input row is that variant's row followed by the other inputs; for a tail loop, the body takes the just-inputs followed by the rest and yields the continue/break sum followed by the rest, and the loop's own inputs and outputs are the matching just-inputs or just-outputs followed by the rest; a basic block's successor with number i receives variant i of its branch sum followed by the other outputs, and there is none outside the number of variants. Calls and function loads have exactly the instantiated signature of the function they reference.",
  ["inputs"],"all rows and variant lists of any length",
  "Builders, validator and lowering each recompute these rows from the operation; tests use rows of one or two types in which order and splitting errors do not show.",
  ["hugr-core/src/ops/controlflow.rs","hugr-core/src/ops/dataflow.rs"],[("loop and conditional rows","hugr-core/src/ops/controlflow.rs TailLoop, Conditional, DataflowBlock"),("call signatures","hugr-core/src/ops/dataflow.rs Call, LoadFunction, CallIndirect")],obs="OpTrait::dataflow_signature, inner_signature, successor_input, case_input_row")
p("M01","Model name resolution follows lexical scoping for every history",
  "After any sequence of entering and leaving scopes and declaring names, a symbol name resolves to the most recent declaration in the innermost open region that declares it, a duplicate within one region is refused and changes nothing, leaving a region restores exactly the bindings from before it was entered, and a symbol node is reported visible exactly when its name currently resolves to it. Variables resolve only within the node that declares them, with indices counting up from zero in declaration order; links are shared by equal keys within one closed region only, and the reported link and port counts of a region are exact.",
  ["histories","inputs"],"all sequences of enter/exit/insert/resolve operations on the symbol, variable and link tables",
  "Model import and text parsing depend on these tables for arbitrarily nested modules; tests are two doc-examples with at most two scopes and a single name.",
  ["hugr-model/src/v0/scope/symbol.rs","hugr-model/src/v0/scope/vars.rs","hugr-model/src/v0/scope/link.rs"],[("symbol table","hugr-model/src/v0/scope/symbol.rs SymbolTable"),("variable table","hugr-model/src/v0/scope/vars.rs VarTable"),("link table","hugr-model/src/v0/scope/link.rs LinkTable")],state="open scopes and binding stacks",obs="resolve / is_visible / exit counts")
p("X01","Extension registries keep one well-defined version per extension",
  "After any sequence of registrations a registry holds at most one definition per extension name. The updating registration keeps the definition with the highest version, never replacing a definition with one of equal or lower version; the strict registration refuses an already registered name and leaves the registry unchanged. Looking a name up gives the definition kept under it. Validating a registry reports an invalid definition whatever was registered before it. An extension refuses a second operation or type under a name it already has and keeps the first, and extension sets behave as mathematical sets under union, difference and inclusion.",
  ["histories","inputs"],"all sequences of registrations with all versions, and all sets of extension names",
  "Loading packages merges registries from many sources in any order; tests register two versions in one order.",
  ["hugr-core/src/extension.rs"],[("registry updates","hugr-core/src/extension.rs ExtensionRegistry::{register,register_updated,register_updated_ref}"),("extension sets","hugr-core/src/extension.rs ExtensionSet")],state="registry map",obs="ExtensionRegistry::get / register results")
p("L01","The lowered layout of a sum gives every field its own correctly typed slot",
  "For every list of variants, the struct laid out for a sum has, for each variant, a distinct slot of exactly the field's type for every field that is not zero-sized, and no slot for zero-sized fields. The number of slots of each type is the maximum number needed by any single variant and no larger. The tag is the narrowest integer type of at least one bit that can tell all the variants apart.",
  ["inputs"],"all lists of variants with any number of fields of any types",
  "Two fields sharing a slot or a mistyped slot corrupts values at run time only for particular variant shapes; tests list a dozen shapes.",
  ["hugr-llvm/src/sum/layout.rs"],[("layout","hugr-llvm/src/sum/layout.rs layout_fields, layout_variants_impl")],obs="layout_variants result")
p("V01","A container's children are accepted only with the prescribed shape and rows",
  "The validator's per-container checks accept a list of children exactly when it has the shape the container prescribes: a dataflow container begins with an input and an output whose rows equal the container's inner signature and has no other input or output; a control-flow graph begins with an entry block and an exit whose rows equal its signature and has no other exit; a conditional has one case per variant with that variant's row followed by the other inputs and the same outputs; the remaining children are of the kinds the container allows (constants may stand among blocks). A control-flow edge is accepted exactly when it leads from a block to a block or exit and the source's row for that successor equals the target's input row. Children of any other kind, number or order are reported as an error: no list of children makes validation panic.",
  ["inputs","programs"],"all containers with any number of children of any signatures, and all block pairs and successor numbers",
  "Accepting one ill-typed child breaks every later pass; tests mutate a few hand-written graphs, while shapes and rows are unbounded.",
  ["hugr-core/src/ops/validate.rs","hugr-core/src/hugr/validate.rs"],[("children checks","hugr-core/src/ops/validate.rs validate_op_children, validate_io_nodes"),("edge check","hugr-core/src/ops/validate.rs validate_cfg_edge")],obs="Hugr::validate result")
p("V02","Validation accepts a graph exactly when it obeys every rule",
  "Hugr::validate returns Ok exactly when all of these hold, and panics for no graph. Every operation is resolved, has as many ports in each direction as it prescribes and sits under a parent that allows it (the module root under none); every container has its prescribed children and an acyclic region where required; the entrypoint is a container. Every incoming value, constant or function port has exactly one source; every outgoing control-flow port or linear value port has exactly one target; both ends of an edge have the same kind and type. An edge joins siblings, or is a static or copyable-value edge from a sibling of an ancestor of its target (values: with an order edge from its source to that ancestor), or is a copyable value from within a block that strictly dominates the block above its target in the same control-flow graph (a block that the entry cannot reach is dominated by none). Types and type arguments mention only the parameters of the closest enclosing function, with their declared kinds (types of constants mention none), and calls and function loads state the signature their arguments give. Two public functions of the module share a name only if both are declarations of equal signature.",
  ["programs"],"all graphs: any number of nodes, nesting, edges and links, any signatures and any names",
  "Validation is the system's central guarantee; tests mutate a few dozen hand-written graphs, one fault at a time.",
  ["hugr-core/src/hugr/validate.rs"],[("validator","hugr-core/src/hugr/validate.rs ValidationContext")],obs="Hugr::validate result")
p("H02","Graph edits change exactly what they say and nothing else",
  "Every edit of a Hugr through HugrMut and its internals has exactly its documented effect and no other. Adding a node makes one new node with the given operation, that operation's ports, no links, no metadata and the stated place among its siblings; removing a node removes it, its links and its metadata (a subtree: all descendants); moving, connecting, disconnecting, changing port counts, replacing operations and setting metadata, entrypoint or root change only that. Inserting a Hugr, a region, a forest, a subgraph or copies of descendants adds distinct new nodes, one per copied node, with the operation, metadata and ports of its original, exactly the links among the copied nodes, and the stated parents and sibling order; the returned map says which is which; regions that overlap and repeated nodes are refused before anything changes. Compacting renumbers the nodes and changes nothing else, reporting each move. The hierarchy stays one forest without cycles in which parents and child lists agree, and calls naming nodes or ports that do not exist panic.",
  ["programs","history"],"all graphs and all sequences of edits with any arguments",
  "Every builder, rewrite and pass edits graphs through these functions; a stray link, lost child or stale metadata shows only after particular histories, while tests run short fixed ones.",
  ["hugr-core/src/hugr/hugrmut.rs","hugr-core/src/hugr/internal.rs","hugr-core/src/hugr.rs"],[("edits","hugr-core/src/hugr/hugrmut.rs HugrMut for Hugr"),("ports and hierarchy","hugr-core/src/hugr/internal.rs HugrMutInternals for Hugr"),("compaction","hugr-core/src/hugr.rs canonicalize_nodes")],state="nodes, hierarchy, links, operations, metadata, entrypoint",obs="HugrView of the graph after each edit")
p("S03","The JSON form of a graph holds exactly that graph; malformed forms are errors",
  "Writing any graph whose nodes are all in the hierarchy of its module and have exactly the ports of their operations in the JSON form and reading it back gives a graph that differs at most in the numbering of its nodes: the same hierarchy with children in the same order, the same operations, metadata and port counts, the same links between the same ports with the same multiplicity, and the same entrypoint. Reading a form gives exactly what it lists, whatever order the nodes after the first are listed in, with the first node below the usual enclosing nodes when it is not a module. A form with an empty node list, a first node that is not its own parent, a parent, entrypoint, edge end or metadata entry outside the node list, parents in a cycle, a port offset the operation does not have, or a missing offset on an operation without an order port is reported as an error: no form makes reading panic.",
  ["inputs","programs"],"all graphs, and all JSON forms with arbitrary indices, offsets and lengths",
  "Programs are stored and exchanged in this form, and files are untrusted input; tests round-trip a few dozen graphs and reject two malformed ones.",
  ["hugr-core/src/hugr/serialize.rs"],[("writing","hugr-core/src/hugr/serialize.rs TryFrom<&Hugr> for SerHugrLatest"),("reading","hugr-core/src/hugr/serialize.rs TryFrom<SerHugrLatest> for Hugr"),("indices","hugr-core/src/core.rs Node")],obs="Hugr::store_str / Hugr::load_str results")
p("W01","Rewrites of valid graphs give the promised valid graph or are refused",
  "Applying a rewrite (replacing a subgraph or a set of nodes, inlining a DFG or a call, peeling a loop, outlining blocks into a nested CFG, cutting wires with a node, inserting an identity, removing a constant or its load) to a valid graph gives exactly the graph its documentation describes: the nodes and wires outside are as before, every boundary wire joins the same outside ports, value wires have one source, the new inside is the one given, and the result is valid, with its signatures closed over the parameters in scope. Verifying a rewrite says whether applying it would succeed: a rewrite that verify accepts applies, one that it refuses is refused when applied, and no rewrite panics; a refused rewrite whose documentation promises so leaves the graph as it was. Removals are refused exactly when the value is still used or the node is of another kind.",
  ["programs"],"all valid graphs and all rewrites constructible for them",
  "Rewrites are the unit of optimisation and are applied wherever they match; tests apply each to a few fixed graphs.",
  ["hugr-core/src/hugr/patch.rs","hugr-core/src/hugr/patch/"],[("rewrites","hugr-core/src/hugr/patch/"),("subgraphs","hugr-core/src/hugr/views/sibling_subgraph.rs"),("graph edits used","hugr-core/src/hugr/hugrmut.rs")],obs="apply_patch / verify results, and Hugr::validate and the graph afterwards")
p("W02","Compilation passes preserve program meaning",
  "Running constant folding, dead-code and dead-function removal, inlining, control-flow normalisation and nesting, monomorphisation, untupling, type replacement and linearisation on a valid program yields a valid program with the same input/output behaviour.",
  ["programs"],"all valid programs, all pass configurations",
  "A miscompilation shows only on particular program shapes; tests run each pass on a few fixed programs.",
  ["hugr-passes/src"],[("passes","hugr-passes/src")],obs="program outputs before and after a pass")
p("S01","Saving and loading a package is lossless in every envelope format",
  "Writing any package and reading it back, in every envelope format and with or without compression, yields an equivalent package: same nodes, order, operations, edges, entrypoints, metadata and embedded extensions.",
  ["programs","configurations"],"all packages and all envelope configurations",
  "Files outlive tools; tests round-trip a few packages.",
  ["hugr-core/src/envelope.rs","hugr-core/src/hugr/serialize.rs","hugr-core/src/export.rs","hugr-core/src/import.rs","hugr-core/src/package.rs"],[("serialisation","hugr-core/src/hugr/serialize.rs"),("model export/import","hugr-core/src/export.rs, hugr-core/src/import.rs")],obs="Package::store/load")
p("S02","Printing and parsing model text is lossless",
  "Printing any model package as text and parsing it gives back an equal package, for all names, string literals, numbers, byte strings and nestings.",
  ["inputs","programs"],"all model packages",
  "Escapes and unusual literals break only on particular strings; tests round-trip fixtures.",
  ["hugr-model/src/v0/ast/print.rs","hugr-model/src/v0/ast/parse.rs"],[("printer and parser","hugr-model/src/v0/ast/print.rs, hugr-model/src/v0/ast/parse.rs")],obs="Package::from_str(package.to_string())")
p("G01","Lowered code computes what the graph means",
  "The LLVM code emitted for a valid program computes the program's outputs for all inputs, including panics for the documented cases.",
  ["programs","inputs"],"all programs the backend accepts",
  "Tests execute or snapshot a few operations each.",
  ["hugr-llvm/src"],[("emission","hugr-llvm/src/emit")],obs="executed LLVM module")
p("B01","Graphs finished by the builders are valid",
  "Every program assembled through the builder interface either gets an error from a builder call or finishes as a graph which passes validation.",
  ["programs","histories"],"all sequences of builder calls",
  "The builder has many call orders; tests exercise straightforward ones.",
  ["hugr-core/src/builder"],[("builders","hugr-core/src/builder")],obs="finish_hugr results")
p("H01","A persistent graph equals the result of applying its commits",
  "For every set of compatible commits, views of the persistent graph (nodes, wires, neighbours) agree with the graph obtained by applying the commits' replacements one after another, and sets containing conflicting commits are refused.",
  ["histories","programs"],"all commit histories",
  "Conflicts and wire crossings of several commits appear only in particular histories; tests use fixed small histories.",
  ["hugr-persistent/src"],[("commit state space and wires","hugr-persistent/src/persistent_hugr.rs, wire.rs")],obs="PersistentHugr::to_hugr vs. HugrView methods")
p("N01","Monomorphised instances get distinct names",
  "Two different instantiations of a function, or of two different functions, by monomorphisation get different names, and equal instantiations share one copy.",
  ["inputs"],"all function names and type argument lists",
  "A clash silently links a call to the wrong instance; tests compare a few names.",
  ["hugr-passes/src/monomorphize.rs"],[("name mangling","hugr-passes/src/monomorphize.rs mangle_name")],obs="mangle_name results")
p("Y01","Rust and Python implementations read each other's files",
  "Every package written by the Python library loads in the Rust library with the same meaning, and vice versa.",
  ["programs"],"all packages",
  "Two implementations of one format; tests exchange a few files.",
  ["hugr-py/src","hugr-core/src/hugr/serialize.rs"],[("Python serialisation","hugr-py/src/hugr")],obs="cross-loading packages")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P:
    assert len(x['title'])<=80,x['id']
    n=len(re.findall(r'[.!?](?:\s|$)',x['statement'])); 
    if n>3: print(x['id'],n)
