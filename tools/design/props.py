P = {
'A01': '''Specified: for each integer fold (`hugr-passes`/`hugr-core` constant folding of `arithmetic.int`) the documented result as a mathematical function of the operands' unsigned or signed readings at width 2^w,
   written with unbounded integers (Euclidean division, floor, wrap-around modulo 2^(2^w), shift and rotate definitions). Every fold function is proved to return exactly the constant with that reading, or to decline.
   Bit-level steps go through bit-vector lemmas, the rest through nonlinear arithmetic lemmas of `lib/ints.rs`. Found and repaired eight defects; two more are demanded by the repository's own tests (known findings).''',
'A02': '''Specified: `ConstInt` as (width exponent, bits) with the invariant "bits below 2^(2^w)"; constructors accept exactly the values in range, `value_u`/`value_s` are the two readings, and deserialization cannot bypass the invariant.''',
'A03': '''Specified: conversions (`itobool`, `ifrombool`, `convert_u/s`, `trunc_u/s`, `widen`...) and logic operations as functions on values; the float operations are decided only up to the choice of machine operation (IEEE semantics is outside Verus): that table is a bounded check.''',
'E01': '''Specified: an envelope header as 10 bytes; `write` then `read` is the identity for every format and every configuration of flags, any other magic number, unknown format byte or unknown flag is an error, and nothing beyond the header is consumed.''',
'T01': '''Specified: `copyable(t)` by recursion over types; every constructor and every function which produces a type keeps the cached bound equal to it (`wf` invariant): construction, sums, functions, custom types, transformation, reading serialized types, type definitions' `bound`.''',
'T02': '''Specified: `inhabits(term, kind)` by recursion; `check_term_type(s)` returns Ok exactly on it. Lemmas: the sub-kind relation is reflexive and transitive and acceptance is monotone in it.''',
'T03': '''Specified: substitution by recursion (`s_term`, `s_type`, `s_row` with splicing of row variables). Every `substitute` function, the list/tuple part iterators and normal forms are proved equal to it, with identity and composition-shaped lemmas.''',
'T04': '''Specified: a sum denotes its list of variants, `same` compares two types up to how their sums are stored. `eq`, `hash`, accessors and constructors are proved against it; lemmas: equivalence relation, equal types feed a hasher equally, equality iff the same list of variants.''',
'T05': '''Specified: `instance(sum, tag, values)` and the recursive `accepted`/`inhabits`. `check_type` returns Ok exactly on instances (and the right error otherwise), constructors build inhabitants, `validate` is exactly `accepted` and implies `inhabits`, the type reported is one the constant has; the `expect`s of the constructors are unreachable. Bounded: elements of list and array constants.''',
'O01': '''Specified: the parent links are read from `immediate_supersets`; `is_superset` is proved to be their reflexive transitive closure (finite, all pairs, by computation) and its laws are lemmas. `tag()` of each operation is proved inside its static tag and inside the categories exactly when it has such ports.''',
'O02': '''Specified: the sequence of ports `value ports ++ static? ++ other*`; `port_kind`, `port_count`, `static_port`, `other_port`, `value_port_count` and everything they call are proved to read it, for every operation and offsets below 2^16.''',
'O03': '''Specified: the rows of each control-flow or call operation as concatenations (`variant ++ other`, ...), for all rows.''',
'M01': '''Specified: ghost state for the three tables (stack of scopes; bindings as a map from name to stack of declarations). Each operation is proved to refine the abstract operation and to keep the representation invariant, so the property holds for every history by induction over operations. `indexmap` is the assumed contract of `lib/index.rs`.''',
'X01': '''Specified: a registry is a map from name to (version, definition); each registration is proved to be the documented map update; the invariant "stored under its own name" makes histories follow by induction. Extension sets are mathematical sets of names. `BTreeMap`/`BTreeSet` are assumed contracts.''',
'L01': '''Specified: in a layout each variant's field goes to a slot of the field's type and no two fields of one variant share a slot. `layout_variants_impl`/`layout_fields` are cut out of `hugr-llvm` (which cannot be built here: no LLVM) and proved with `BTreeMap` contracts; the executable layer includes the same cut-out text.''',
'D01': '''Specified: the order of abstract values by recursion; `join`/`meet` as least upper / greatest lower bounds, change reports as `result != old`. Structural part of the domain under contract with the map of variants as an assumed finite map.''',
'V01': '''Specified: what each container accepts as children (kinds, first/second child, rows, control-flow edges). `ValidationContext::validate_children`, every `validity_flags` and `validate_op_children`, `validate_io_nodes` and `validate_cfg_edge` are proved to accept exactly that and to panic for nothing; the lists of children and edges and the acyclicity of a region are the assumed interface.
   The executable contracts state the shapes again over real operations, run the checks on lists of children that are right or slightly wrong, and validate whole generated graphs before and after one structural change.''',
'V02': '''Specified: `accepted(g)`, the rules on nodes, ports, edges, scopes and names over the graph as its view presents it (operations, parents, children, links, connections). All of `ValidationContext` except the callee decided by V01 is proved to return `Ok` exactly when `accepted(g)`; the walk over ancestors is shown
   (lemma_only, lemma_none) to stop at the one ancestor that can justify a nonlocal edge, the recursion over the tree carries the parameters of the closest function, the cache of dominator trees is an invariant. Assumed: petgraph's dominators (specified as reachability), portgraph's lists, and the callee contracts of other properties.
   The executable contracts state the rules a second time, by brute force (dominance by removing the block and searching), and compare with `Hugr::validate` on generated graphs after up to three random changes (edges moved across regions with and without order edges, doubled or removed edges, ports, operations, parents, names, visibilities, parameters, arguments). Found and repaired: two functions on one function port were accepted; calls applied to parameters out of scope that show in no port were accepted.''',
'H02': '''Specified: a graph as live nodes with port counts, a multiset of links, a parent/children forest with a rank, operations, metadata, root and entrypoint, with the invariant `wf()`; each edit's postcondition says what becomes of every node, port, link, parent, child list, operation and metadata entry. 54 functions are proved against it, with 39 lemmas, including the copying loop of `insert_forest_internal` (opaque loop states, one lemma per step: links counted with multiplicity while they are added from both ends) the refusal of overlapping regions in `insert_forest`, and `copy_descendants` (children of every copied node hung below its copy in order, links to the outside kept). Assumed: portgraph's graph, hierarchy and dense maps do what their documentation says. `canonicalize_nodes` is proved to renumber the nodes in canonical order (the search for a node swapped away earlier follows its trail; the calls of `rekey` are stated too). Not proved, executable contracts only: the panics on bad arguments.
   The executable contracts run random histories of edits (all public edits, with bad arguments too) against a plain model kept next to the graph and compare everything observable after every step. Found and repaired ten defects (see KNOWN_FINDINGS.txt): links lost or corrupted when several ports of a node are removed at once (a portgraph fault, found because the executable contracts contradicted the contract assumed of it; the assumed contract now asks that the removed ports carry no links), stale metadata on reused indices, metadata mixed up and moves misreported by compaction, panics when copying nodes without their parent, and calls that accepted nodes that do not exist.''',
'S03': '''Specified: `malformed(f)` and `described(g, b, f)` say which forms are refused and which graph a form lists (operations, ports, parents, child order, metadata, link counts, entrypoint, below the padding nodes of another root); `written(h, f, w, m, ls)` says what a form of `h` contains: `w` lists every node once, blocks of children in order, `m` numbers them, `ls` is every link with its multiplicity. Proved of the code, for graphs and forms of any size: reading (`load`, its two closures and `make_module_hugr`/`new_with_entrypoint`), walking (`canonical_order` and its iterator step), the node, port and link listings of `HugrView for Hugr`, and writing (`store`, `find_offset`). The lemma `round_trip` composes both contracts: whatever is written of a graph is not malformed and every graph the reading contract allows for it is `renamed(h, g, m)`: the same graph with its nodes renumbered. The contracts of the graph edits used are those proved under H02. Assumed: portgraph, HashMap, derived serde code.
   The executable contracts go through the JSON text: random graphs are written, read back, read by an independent reader, reordered and damaged (indices, offsets, lengths, parents). Found and repaired: panics and silently truncated indices on malformed forms (see KNOWN_FINDINGS.txt). Two defects of the JSON form of floats are known findings, not repaired: infinite floats and NaN are written but cannot be read, and serde_json without `float_roundtrip` (a dependency setting) reads some finite floats one unit in the last place off.
''',
'W01': '''Specified: the graphs of H02, with `sole(g, l)` (l is the only link into its target), `adjacent`, `feeds`, `idle`, `fits` (ports are those of the operations). Each rewrite's contract says when verify and apply succeed (the same condition), and what apply makes of every node, link, parent, operation and metadata entry. Proved: RemoveLoadConstant, RemoveConst, IdentityInsertion (verify and apply) and the view functions below them (neighbours, linked_inputs/outputs, single_linked_port/output, static_source). The others are executed: random valid graphs with nested regions, order edges, nonlocal edges, polymorphic calls and loops; each rewrite at every place it can be made for; the result is compared with a plain model (exact links and nodes, boundary wires, metadata), validated, and verify is compared with apply; refused rewrites must leave the graph alone.
   Found and repaired ten defects (see KNOWN_FINDINGS.txt), among them panics on order edges, signatures left open by inlining polymorphic calls, order edges dropped at boundaries, and verify functions that were not implemented or accepted what apply refused. One is listed as known: outlining blocks whose value another block uses inside it by a dominance edge.''',
}
