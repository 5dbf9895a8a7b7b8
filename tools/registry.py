"""The properties and how each is checked (properties.jsonl and MANIFEST.json are generated from here)."""
CORE = ["core"]
BP = ["core", "blueprint"]
RELAY = ["core", "blueprint", "relay"]
TECH = "property-based testing: "
TRUST = ("Generated-input search against an explicit oracle under AddressSanitizer; it samples, it does not prove. "
         "Trusts clang's sanitizer runtime, the harness's own model and the build flags of tools/vbuild.py. ")


def P(**k):
    return k


PROPS = {}

PROPS["C01"] = P(
    title="A node tree behaves as an ordered tree under any history of edits",
    statement="Under any sequence of node operations (set and fetch by path, append, add, remove, rename, copy, update, "
    "compatible update, move, swap, reset) a tree always holds exactly the children, order, names, types and values the "
    "operations prescribe. Every view of it (by index, by name, by path, forward and backward iterators, parent links, "
    "node paths, the schema) describes that same tree, and lookups, removals and renames of names that are missing or "
    "taken are reported as errors and change nothing. Operations on one tree never alter another tree.",
    over=["histories", "inputs"],
    quant="all histories of tree operations over several roots, any names (including odd characters and embedded slashes), any leaf types and lengths",
    why="The unit tests run a few fixed edit scripts of two or three steps; an inconsistent index, parent link or stale "
    "view needs a particular order of operations on a particular shape.",
    files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_schema.cpp", "src/libs/conduit/conduit_node_iterator.cpp"],
    mech=[("child vectors of Node and Schema kept in step; name to index map", "Node::fetch/append/remove/swap, Schema::remove/rename_child"),
          ("parent links", "Node::m_parent, Schema::m_parent")],
    observe=["Node, Schema and NodeIterator public API"],
    technique=TECH + "stateful model-based histories",
    rule="A case is a history of 1..34 generated operations on three trees, every operation mirrored on a value-semantics model; after "
    "every operation all views of all trees are compared with the model. Non-trivial: at least two structural operations "
    "(remove, rename, copy, swap, move, update) took effect and the trees hold at least 8 nodes at the end.",
    note=TRUST + "Histories up to 34 operations, trees a few levels deep.",
    stages=[dict(name="C01", components=CORE)],
)

PROPS["C02"] = P(
    title="Numeric leaves read, convert and print exact values for every type and layout",
    statement="For every numeric type, element count, offset and stride, each way of reading a leaf (typed scalars and pointers, "
    "data arrays, accessors, to_* conversions, to_*_array, to_data_type, as std types and C native types) yields, for every element, the "
    "value stored converted as a C++ cast would convert it, and exactly as many elements as the leaf has. Writes through arrays and accessors "
    "(set, fill, set from arrays, pointers and other types) store exactly the converted values in the described elements and touch no other byte. "
    "Sum, mean, min, max, count and diff style statistics agree with the values; swapping endianness twice is the identity and once reverses each "
    "element; strings convert to the number they spell, and printing an array, accessor or value gives text that names those values.",
    over=["inputs"],
    quant="all ten numeric types, all pairs of source and destination type, any count, offset, stride, any representable values incl. extremes and non-finite",
    why="There are 10x10 type pairs times layouts times entry points, generated by repetition in the sources; the tests sample small "
    "positive values on compact arrays, where a wrong width, sign or stride cannot be seen.",
    files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_data_array.cpp", "src/libs/conduit/conduit_data_accessor.cpp", "src/libs/conduit/conduit_utils.cpp"],
    mech=[("element addressing by offset and stride", "DataType::element_index, DataArray::element, DataAccessor::element"),
          ("conversion tables", "Node::to_data_type, Node::to_*, DataArray::set, DataAccessor::set")],
    observe=["Node, DataArray, DataAccessor public API; raw bytes of the leaf's memory"],
    technique=TECH + "generated layouts and values against a bit-level reference of the leaf and C++ casts",
    rule="A case is one leaf (type, count, layout, values) and the reads or the writes done on it. Non-trivial: the leaf has at least two elements "
    "(for strings: the text spells a number).",
    note=TRUST + "Float to integer conversions outside the destination's range are undefined in C++ and not generated.",
    stages=[dict(name="C02", components=CORE)],
)

PROPS["C03"] = P(
    title="Data types and schemas describe memory exactly and survive as text",
    statement="A data type's sizes, element addresses, predicates, equality and compatibility follow from its id, count, offset, stride, element "
    "bytes and endianness alone. A schema is a tree under any history of edits (names, indices, paths and parent links agree; total sizes are "
    "the sums over its leaves; child order of objects does not affect equality; compatibility is per leaf), and compacting it packs leaves in order. "
    "Writing a data type or schema as JSON or YAML, to a string or file, and reading it back gives an equal one, for any child names. A schema in its JSON "
    "or YAML text form (shorthand types, defaulted or explicit length, offset, stride, endianness, lists of entries, nested trees) parses to the documented layout. "
    "A node built from a schema and memory, external or copied, reads exactly the bytes the schema describes.",
    over=["inputs", "histories"],
    quant="all data types (11 leaf kinds, any count, offset, stride, endianness), all schema trees and edit histories, all layouts of memory under them",
    why="Tests use compact, little endian, plainly named layouts; an offset or stride error, a lost default or a mis-escaped name only shows for unusual layouts.",
    files=["src/libs/conduit/conduit_data_type.cpp", "src/libs/conduit/conduit_schema.cpp", "src/libs/conduit/conduit_generator.cpp", "src/libs/conduit/conduit_node.cpp"],
    mech=[("layout arithmetic", "DataType::element_index, spanned_bytes, compact_to"), ("schema tree", "Schema::fetch/remove/rename/compact_to/equals/compatible"),
          ("schema text", "Schema::to_json_stream, Generator::Parser::JSON/YAML walk_schema, parse_leaf_dtype")],
    observe=["DataType, Schema, Generator and Node public API"],
    technique=TECH + "generated types, schemas, edit histories and layouts against a reference description; text round trips",
    rule="A case is one data type, one schema (or pair), one edit history, or one layout over a block of memory. Non-trivial: two or more elements (types), "
    "or three or more schema nodes / two or more leaves.",
    note=TRUST + "Names equal to 'dtype' are ambiguous in schema text by design and excluded there.",
    stages=[dict(name="C03", components=CORE)],
)

PROPS["C04"] = P(
    title="Compaction, serialization and binary files place every value as the schema says",
    statement="For any tree, whatever the layout of its leaves (owned, external, offset, strided, big endian), compact_to, serialize (vector, buffer, stream, file), "
    "the copy constructors, list_of and save/load/mmap in conduit_bin form reproduce exactly the same tree of names, types and values; the bytes are the leaves' "
    "elements in depth-first order without gaps, and the schema kept with them describes exactly those bytes. Destinations lose whatever they held before; sources are unchanged and never share memory "
    "with copies; mapped files pass writes through. is_contiguous, contiguous_with and contiguous_data_ptr tell exactly whether the leaves are adjacent in "
    "order, and the reported total, allocated and mapped byte counts are exact. Truncated or missing files are reported as errors.",
    over=["inputs"],
    quant="all trees, all leaf layouts, all destinations (fresh or holding something else)",
    why="The tests compact a handful of regular trees; mixed layouts, zero-length leaves, empty nodes and reused destinations are where sizes and offsets go wrong.",
    files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_schema.cpp"],
    mech=[("packing", "Node::compact_to, compact_elements_to, serialize, Schema::compact_to"), ("contiguity", "Node::contiguous_with, is_contiguous"),
          ("binary files", "Node::save/load/mmap, Node::MMap")],
    observe=["Node and Schema public API; file bytes; addresses"],
    technique=TECH + "generated trees and layouts; byte-level reference packing; round trips through memory, streams, files and mappings",
    rule="A case is one tree with one assignment of layouts to its leaves (or one placement of leaves in a block). Non-trivial: at least two leaves and, where layouts vary, "
    "one that is not compact.",
    note=TRUST,
    stages=[dict(name="C04", components=CORE)],
)

PROPS["C05"] = P(
    title="Trees written as text read back as the tree they were written from",
    statement="For any tree, whatever the layout of its leaves, text written as conduit_json reads back with the same names, types and values; conduit_base64_json "
    "is exact to the byte (any endianness); json and yaml keep names, structure and values, widening numbers to 64 bits (lists of numbers become arrays); "
    "64-bit floats keep 15 significant digits and non-finite values survive. conduit_json_external reads back as views of the original memory. "
    "All entry points (to_json, to_yaml, to_string, streams, files, option nodes, save/load by protocol or file extension, Generator, parse) give the same text and result for any indent, depth, pad and line end, into any "
    "destination, and never change the source. Strings and names may hold any characters, and comments, whitespace and escapes in JSON do not change what is read. Summaries show exactly the documented first and last entries.",
    over=["inputs"],
    quant="all trees, names and strings (valid UTF-8 incl. control characters), all formatting options, all destinations",
    why="Tests print small trees with simple names; escaping, numeric limits, empty containers and reused destinations each need particular contents.",
    files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_generator.cpp", "src/libs/conduit/conduit_utils.cpp", "src/libs/conduit/conduit_data_array.cpp"],
    mech=[("writers", "Node::to_json_generic, to_yaml_generic, to_base64_json, to_summary_string_stream, utils::escape_special_chars, float64_to_string"),
          ("readers", "Generator::Parser::JSON/YAML, utils::json_sanitize")],
    observe=["Node text API, Generator, files"],
    technique=TECH + "round trips of generated trees through every text protocol and entry point against a value model; reference renderer for summaries; generated hand-written JSON",
    rule="A case is one tree, one protocol and one choice of writing and reading entry points. Non-trivial: the tree has at least two leaves.",
    note=TRUST + "Protocol limits outside the domain: untyped arrays of unsigned values above INT64_MAX; YAML strings that spell numbers or are empty, and empty containers, in yaml.",
    stages=[dict(name="C05", components=CORE)],
)

PROPS["C06"] = P(
    title="Parsing any text gives a usable tree or an error and an empty node",
    statement="Whatever text is given to the json, yaml, conduit_json, conduit_yaml and conduit_base64_json parsers (Node::parse, Schema::set, Generator walk and walk_external), the outcome is a tree "
    "in which every leaf is readable, copyable and printable, or a conduit::Error; never a crash, hang, out-of-bounds access or other exception. A failed parse leaves the destination empty and usable. "
    "Valid JSON documents are always accepted and cut-off ones never are. Generator::walk and walk_external accept the same schemas and produce equal trees.",
    over=["inputs"],
    quant="all texts near the grammar: generated valid documents and schemas with up to four mutations (deleted, inserted, duplicated, replaced and truncated parts), into fresh and used nodes",
    why="Malformed text is unbounded; tests try a handful of bad inputs, and each unhandled combination is a crash in the host application.",
    files=["src/libs/conduit/conduit_generator.cpp", "src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_utils.cpp"],
    mech=[("parsers", "Generator::Parser::JSON/YAML walks, parse_leaf_dtype, parse_inline_value, parse_base64"), ("failure path", "Node::parse, Generator::walk")],
    observe=["Node::parse, Schema::set, Generator"],
    technique=TECH + "grammar-based generation with mutation (fuzzing); invariant and differential oracles under AddressSanitizer",
    rule="A case is one text, given to several parsers. Non-trivial: a mutated JSON document of three or more nodes, or a schema of 20 or more / YAML of 12 or more characters.",
    note=TRUST + "Texts asking for sizes above 99999 or giving element_bytes or address are not generated, nor strides smaller than the element size.",
    stages=[dict(name="C06", components=CORE)],
)

PROPS["C07"] = P(
    title="set_external describes memory in place, set copies, writes land as described",
    statement="A leaf given by any set_external form (pointer, DataType, Schema, DataArray, vector, string, path and Node forms, any type, offset, stride and endianness) reads and writes the caller's memory in place: "
    "writes through the node change exactly the described elements, writes to the memory show in the node, and views taken from a node (set_external, update_external) see the same storage. "
    "set, copies, compact_to and updates into fresh leaves give storage of their own that later writes and the destruction of the source do not affect; a set that fits an existing compatible leaf is done in place, in its layout, "
    "and one that does not fit never writes into the external memory. Nodes never free, move or alter external memory beyond those writes, through any history of sets, copies, moves, swaps, updates, removals and resets.",
    over=["histories", "inputs"],
    quant="all histories over several trees and buffers, all ten numeric types and strings, any offset and stride, overlapping views",
    why="Aliasing bugs need a copy, a view and a write in a particular order; tests do one set_external and one read.",
    files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_utils.cpp"],
    mech=[("ownership", "Node::init, allocate, release, m_alloced"), ("views", "Node::set_external*, mirror_node, walk_schema, update_external"), ("in-place writes", "Node::set*, update, update_compatible")],
    observe=["Node public API; bytes of the external buffers; element addresses"],
    technique=TECH + "stateful model-based histories over a byte-level model of shared storage; table of every typed entry point with generated layouts",
    rule="A case is a history of up to 35 operations on four trees over three 256-byte buffers, or one typed entry point with one layout. Non-trivial: two or more external leaves and a write in the history; two or more elements and a non-compact layout for entry points.",
    note=TRUST + "Operations that would leave a view of storage its owner has freed, and copies between overlapping ranges, are outside the domain.",
    stages=[dict(name="C07", components=CORE)],
)

PROPS["C08"] = P(
    title="diff and diff_compatible report exactly the differences between two trees",
    statement="For any two trees, Node::diff and diff_compatible (and those of data arrays) return whether they differ by the documented rules: object children by name in any order, list entries by position, leaves by type, length and value, floats within epsilon, "
    "NaN only equal to NaN, strings up to their terminator, integers of different widths by value when relaxed; compatibility asks that the argument has everything this node has (more children, entries, elements or a longer string are fine). "
    "The digest's verdict at every level, its lists of extra and missing children and its element differences match, whatever the info node held before. diff is reflexive and symmetric, equal trees are compatible, layout never matters, and neither tree changes.",
    over=["inputs"],
    quant="all pairs of trees, near-equal pairs above all, all leaf layouts, several epsilons",
    why="A missed difference passes for equality in every test that uses diff itself as its oracle.",
    files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_data_array.cpp", "src/libs/conduit/conduit_log.cpp"],
    mech=[("comparison", "Node::diff, Node::diff_compatible, DataArray::diff, DataArray::diff_compatible"), ("digest", "log::error, log::validation")],
    observe=["return value and info digest"],
    technique=TECH + "generated near-equal pairs against a reference comparison; symmetry and reflexivity laws",
    rule="A case is a tree and a mutated copy (0..3 mutations of values, types, lengths, names, order) or two independent trees, or two arrays. Non-trivial: two or more leaves (or elements).",
    note=TRUST,
    stages=[dict(name="C08", components=CORE)],
)

PROPS["C09"] = P(
    title="The C API does exactly what the C++ API does",
    statement="Every function of the conduit C interface (creation and destruction, paths, children, removal, renaming, moves, swaps, updates, node and string sets, the set, set_path, set_external and set_path_external scalar, pointer and detailed "
    "pointer forms of all bit-width and native C types, the as and fetch_path_as readers, pointers, data types, sizes and contiguity, diff, info, text output, parsing, generators, save and load) has the effect and result of its C++ counterpart on the same tree, for all arguments: "
    "types, offsets, strides, endianness and element counts are passed on unchanged, external memory is aliased and not copied, and returned strings are the caller's to free. The same holds for the C interfaces of blueprint (verify and its sub protocols, index, partition, flatten, mcarray "
    "transforms, examples) and relay (save, save_merged, add_step, load, with and without protocol and options).",
    over=["inputs", "histories"],
    quant="all 24 typed families and 14 forms with any layout; all histories of tree operations through the C interface",
    why="About 400 near-identical wrappers; one with swapped or dropped arguments only shows with a layout, type or path no test uses.",
    files=["src/libs/conduit/c/conduit_node_c.cpp", "src/libs/conduit/c/conduit_datatype_c.cpp", "src/libs/conduit/c/conduit_cpp_to_c.cpp", "src/libs/blueprint/c/conduit_blueprint_mesh_c.cpp", "src/libs/blueprint/c/conduit_blueprint_mcarray_c.cpp", "src/libs/blueprint/c/conduit_blueprint_table_c.cpp", "src/libs/relay/c/conduit_relay_io_c.cpp"],
    mech=[("wrappers", "conduit_node_*, conduit_datatype_*, conduit_blueprint_* and conduit_relay_io_*")],
    observe=["C API results; the C++ view of the same node"],
    technique=TECH + "differential testing of the C interface against the C++ interface and a value model, over generated layouts and histories",
    rule="A case is one typed call with a generated layout, or a history of up to about 30 operations done on a C tree and a C++ tree, or one blueprint or up to five relay calls done by both interfaces. Non-trivial: two or more elements, domains or calls, or six or more effective operations.",
    note=TRUST + "print functions (standard output), the message handlers and the C interfaces of the MPI libraries are not covered.",
    stages=[dict(name="C09", components=CORE), dict(name="C09B", components=RELAY)],
)

PROPS["C11"] = P(
    title="Relay save, load, merge and IOHandle give back exactly the stored tree",
    statement="For every protocol (conduit_bin, conduit_json, conduit_base64_json, json, yaml, hdf5, conduit_silo) and any tree that protocol can represent, relay::io::load after save returns the same tree "
    "(structure, order, names, types and values; for json and yaml with the widening those texts imply), and saving does not change the tree that was saved. save_merged and load_merged equal Node::update of the "
    "existing contents, subpaths (file:path) address exactly that subtree, incompatible or missing targets are errors that leave the file readable. Any history of IOHandle operations (open with mode rw, r, w, a or t, "
    "read, write, remove, has_path, list_child_names, close) behaves as the same history on an in-memory tree, the file holds that tree after close, and modes that forbid reading or writing do so.",
    over=["histories", "inputs"],
    quant="all representable trees of generated shapes, types and layouts; all histories of file and handle operations with any subpaths and modes",
    why="Protocol x mode x subpath x existing contents multiply; tests write one small tree into a new file per protocol.",
    files=["src/libs/relay/conduit_relay_io.cpp", "src/libs/relay/conduit_relay_io_handle.cpp", "src/libs/relay/conduit_relay_io_hdf5.cpp", "src/libs/relay/conduit_relay_io_silo.cpp"],
    mech=[("protocol dispatch", "relay::io::save, load, save_merged, load_merged"), ("handles", "BasicHandle, HDF5Handle")],
    observe=["relay::io functions and IOHandle; the file re-read by independent calls"],
    technique=TECH + "stateful model-based histories and round trips against a value model of the file",
    rule="A case is a save and load of one generated tree, or a history of up to about 20 file or handle operations on one file. Non-trivial: the tree has several leaves, or several operations took effect.",
    note=TRUST + "HDF5 names with '/' or '.' are excluded, as are zero-byte nodes in Silo and the trees that YAML or JSON text cannot express. ADIOS and zfp are not in this build.",
    stages=[dict(name="C11", components=RELAY)],
)

PROPS["C12"] = P(
    title="HDF5 options, partial reads and writes and foreign files never change data",
    statement="Storage options (chunking, compression, compact storage, libver) never change what is read back, and options given to one save do not outlive it. For any history of writes with offset and stride to a dataset, "
    "the dataset is the array those writes describe (extended with zeros where needed, a fixed dataset converted when needed) and a read with offset, stride and size returns exactly that selection; read_info reports the sizes; "
    "writes of another size without offset or stride and reads beyond the end are errors that leave file and id usable. Datasets by other writers (any rank, big endian, scalar, fixed and variable length strings) "
    "read as their logical values in native byte order, whole or as hyperslabs. Trees written, listed, queried and removed through open file ids behave as the same history on a tree, "
    "and no operation, failing or not, keeps the file open.",
    over=["histories", "inputs", "configurations"],
    quant="all storage option combinations, all offset, stride and size selections of ranks 1 to 4, all numeric types, all histories of id operations",
    why="Options, layouts and dataset states interact (fixed or extendible, chunked or compact, compatible target or not); the tests cover single writes with hand-picked numbers.",
    files=["src/libs/relay/conduit_relay_io_hdf5.cpp"],
    mech=[("hyperslab selection", "read_hdf5_dataset_into_conduit_node, fill_dataset_opts"), ("extendible datasets", "write_conduit_leaf_to_hdf5_dataset"), ("compatibility check", "check_if_conduit_node_is_compatible_with_hdf5_tree")],
    observe=["hdf5_* functions, IOHandle; datasets created directly with the HDF5 library"],
    technique=TECH + "stateful model-based histories of one dataset or file, and HDF5-library-written inputs, against an array model",
    rule="A case is one write and read with generated options, one foreign dataset with a selection, or a history of up to about 18 operations. Non-trivial: two or more leaves, rank two or more, or two or more effective writes.",
    note=TRUST + "Ranks up to 4, sizes up to a few hundred elements; MPI-IO HDF5 not covered.",
    stages=[dict(name="C12", components=RELAY)],
)

PROPS["C18"] = P(
    title="Blueprint coordinate set and topology queries and conversions keep the mesh",
    statement="For every valid coordset (uniform, rectilinear, explicit; cartesian, cylindrical, spherical or unnamed axes; any numeric type and layout) length, dims, axes, coordsys, logical_dims, extents, spacing and coords report what the points say, "
    "and to_rectilinear and to_explicit give the same points in the same order with the same axes. For uniform, rectilinear and structured topologies every chain of to_rectilinear, to_structured and to_unstructured gives "
    "a mesh that verifies with the same points and the same elements (vertex lists) in the same order, and a destination's old contents do not show through. For unstructured topologies of any shape (line, tri, quad, tet, hex, wedge, pyramid, polygonal, polyhedral) "
    "length, dims and points match, generated offsets are the running sums of the sizes, and to_polytopal and to_polygonal keep every element's vertices in a closed surface with each distinct face stored once. None of these changes its input.",
    over=["inputs"],
    quant="all meshes of generated dimension, coordinate system, shape, numbering, index and coordinate types and array layouts",
    why="Coordset type x axes x dimension x shape x numeric type x layout multiply; tests convert the built-in examples with float64 and int32 arrays.",
    files=["src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp"],
    mech=[("coordset conversion", "convert_coordset_to_rectilinear, convert_coordset_to_explicit"), ("topology conversion", "convert_topology_to_rectilinear, _to_structured, _to_unstructured, unstructured::to_polytopal"), ("offsets", "topology::unstructured::generate_offsets")],
    observe=["blueprint::mesh::coordset, topology and utils functions"],
    technique=TECH + "generated meshes against a combinatorial model of points and elements",
    rule="A case is one generated mesh with every applicable query and a chain of conversions. Non-trivial: two or more elements (and dimension two or more for grids).",
    note=TRUST + "Up to 5 elements per axis. Wedges and pyramids become polyhedra with triangulated sides by design, so only vertices and closedness are checked there. Structured elements/origin is not covered.",
    stages=[dict(name="C18", components=BP)],
)

PROPS["C19"] = P(
    title="Topologies derived from a mesh are complete, unique and correctly mapped",
    statement="For every valid unstructured topology (line, tri, quad, tet, hex, wedge, pyramid, polygonal, polyhedral; any index type, layout and numbering; unused points allowed): generate_points, generate_lines and generate_faces list each "
    "distinct entity of the elements exactly once, and the source-to-derived and derived-to-source maps are valid one-to-many relations, inverse to each other, giving for each element exactly its own entities. "
    "generate_centroids gives each element the mean of its distinct vertices. generate_sides gives for each element and each edge of each of its faces exactly one triangle (2D, keeping orientation) or tetrahedron (3D) on that edge, the face centre and the cell centre, "
    "and maps fields: element values are copied with their type, volume dependent values are split in proportion to volume, vertex values are averaged at new points, the original id fields and the selected names and prefix are right. "
    "generate_corners gives for each element and vertex exactly one closed corner on that vertex and the adjacent edge, face and cell centres. Original points keep their ids and positions, results verify, old contents of the destinations do not show through, and the source mesh does not change.",
    over=["inputs"],
    quant="all generated meshes of every shape, numbering, index and coordinate type and array layout, with any set of fields and options",
    why="Entity sharing depends on mesh connectivity and numbering; the tests count entities on a few structured examples.",
    files=["src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp", "src/libs/blueprint/conduit_blueprint_o2mrelation.cpp"],
    mech=[("entity cascade", "TopologyMetadata"), ("centroids", "calculate_unstructured_centroids"), ("sides and corners", "unstructured::generate_sides, generate_corners"), ("field mapping", "map_fields_to_generated_sides")],
    observe=["blueprint::mesh::topology::unstructured::generate_*"],
    technique=TECH + "generated meshes against a combinatorial and geometric model of their entities",
    rule="A case is one generated mesh and one derivation. Non-trivial: two or more elements.",
    note=TRUST + "Up to 3 cells per axis (27 hexahedra, 162 tetrahedra). Wedges and pyramids have triangulated sides by design; there faces are checked for closedness. Coordinates are compared to 1e-4. Field mapping is checked on cartesian axes only. Mixed shape topologies are not covered.",
    stages=[dict(name="C19", components=BP)],
)
PROPS["C17"] = P(
    title="mesh verify accepts exactly what the mesh protocol allows, for any tree",
    statement="For every tree of nodes, valid mesh or not, blueprint mesh verify (mesh, and the coordset, topology, matset, specset, field, adjset, nestset and index protocols, called directly or by protocol name) returns an answer, never throws or crashes, and does not change its input. "
    "It returns true exactly for the trees that follow the documented protocol: required children present and of the right kind, enumerated strings known, array lengths and names consistent, and every reference (topology to coordset, field to topology and matset, and so on) naming an existing, valid entry; "
    "info/valid agrees with the answer, for the mesh and for each of its entries. Single domain, multi-domain (object or list) and empty meshes are covered. "
    "generate_index gives, for every valid mesh, exactly the index of its entries: types, axes and coordinate system, references, number of components, material map, species, state, paths joined to the given reference path, the union over domains, and the given number of domains; the index of a single domain verifies.",
    over=["inputs"],
    quant="all generated valid meshes, all random alterations of them, and random trees over the protocol's vocabulary",
    why="Readers call verify on whatever a file holds; the tests list a few accepted and rejected examples per protocol.",
    files=["src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint.cpp", "src/libs/blueprint/conduit_blueprint_mcarray.cpp", "src/libs/blueprint/conduit_blueprint_o2mrelation.cpp", "src/libs/conduit/conduit_log.cpp"],
    mech=[("verify", "mesh::verify, verify_single_domain and the protocol verify functions"), ("references", "verify_reference_field"), ("index", "generate_index_for_single_domain")],
    observe=["blueprint::verify", "blueprint::mesh::*::verify", "blueprint::mesh::generate_index"],
    technique=TECH + "valid meshes, structural mutations of them and random trees against an independent model of the protocol",
    rule="A case is one mesh (or tree or index) and its alterations. Non-trivial: at least one alteration, or two or more children.",
    note=TRUST + "Where the documents do not say (zero length components, lists nested in field values, non-string oddities such as an empty values object of an explicit coordset) only totality and consistency are required. Entry names with slashes are not generated.",
    stages=[dict(name="C17", components=BP)],
)

PROPS["C22"] = P(
    title="Material sets, fields on them and species sets survive every conversion",
    statement="For every valid material set (multi-buffer or uni-buffer, by element or by material; any names and ids, index and number types, strides, buffer order, gaps and indices) and field with matset_values on it: to_multi_buffer_full, to_sparse_by_element and to_multi_buffer_by_material, and chains of them, give a valid set and field "
    "of the requested flavour (as is_uni_buffer, is_multi_buffer, is_element_dominant and is_material_dominant tell) that list for every element exactly the same materials, with the same volume fractions and field values (those above epsilon, where one is given), keep the field's other entries and name the new set. "
    "to_silo of the set and of the field gives matlist, mix_next, mix_mat, mix_vf, mixvar values and material_map from which exactly those contents are read by Silo's rules (clean elements hold the material id, mixed ones a negative link into the mix arrays), and to_silo of a species set (from the set or its silo form) gives exactly the mass fractions of each element, material and species. "
    "Old contents of the destinations are replaced and the source does not change.",
    over=["inputs", "histories"],
    quant="all generated material sets of every flavour, index and value type and memory layout, with fields and species sets, and all chains of up to three conversions",
    why="Contents are spread over parallel arrays whose arrangement depends on flavour, order, types and sparsity; the tests convert one or two fixed sets each way.",
    files=["src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp", "src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp", "src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp"],
    mech=[("silo form", "detail::to_silo, specset::to_silo"), ("conversions", "to_multi_buffer_full, to_sparse_by_element, to_multi_buffer_by_material and the walk_* helpers"), ("relation lookup", "O2MIndex, O2MIterator")],
    observe=["blueprint::mesh::matset, field and specset conversion functions"],
    technique=TECH + "generated material sets converted and compared with a map from element and material to value",
    rule="A case is one set with a field (and species set) and its chain of conversions. Non-trivial: two or more elements, at least one of them mixed.",
    note=TRUST + "Up to 8 elements and 4 materials. Uni-buffer sets by material are only converted to_silo (the other conversions do not support them). Multi-component matset_values and explicitly listed zero volume fractions are not covered.",
    stages=[dict(name="C22", components=BP)],
)

PROPS["C23"] = P(
    title="One-to-many relations, component arrays and indices address the right items",
    statement="For every o2mrelation (any groups, group order, gaps, shared slots, with or without sizes, offsets and indices, several data arrays, any integer types and layouts) O2MIndex and O2MIterator give for every (one, many) the data item indices[offsets[one] + many] with the documented defaults; forward, backward and nested walks, peeks, copies and direct moves of the iterator visit exactly those items in order (for groups that are not empty); "
    "data_paths lists the data arrays; compact_to gives a relation of the same groups and values, compact when sizes are present, and generate_offsets gives the prefix sums of sizes. "
    "For every mcarray (object or list, any names, types, strides, byte orders) to_contiguous and to_interleaved give own copies with the same names, order, types and values in exactly the stated memory layout, and is_interleaved recognises interleaved arrays. "
    "o2mrelation and mcarray verify accept exactly the trees their documents describe, for any tree, and info/valid agrees. NDIndex gives the documented flat index, shape, offset and stride, from nodes or arrays. Inputs do not change and old contents of outputs are replaced.",
    over=["inputs"],
    quant="all generated relations, component arrays, index nodes and random trees",
    why="Polygonal and polyhedral meshes, material sets and interleaved fields are all read through these; the tests use uniform examples with a few layouts.",
    files=["src/libs/blueprint/conduit_blueprint_o2mrelation.cpp", "src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp", "src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp", "src/libs/blueprint/conduit_blueprint_mcarray.cpp", "src/libs/blueprint/conduit_blueprint_ndarray_index.hpp", "src/libs/blueprint/conduit_blueprint_ndarray_index.cpp"],
    mech=[("relation lookup", "O2MIndex::index, O2MIterator::index"), ("compaction", "o2mrelation::compact_to, generate_offsets"), ("layouts", "mcarray::to_contiguous, to_interleaved, is_interleaved")],
    observe=["blueprint::o2mrelation, mcarray and ndarray functions"],
    technique=TECH + "generated relations, arrays and trees against direct models of their documented meaning",
    rule="A case is one relation, tree, array or index with every query. Non-trivial: two or more groups with sizes or indices; two or more children, components or dimensions.",
    note=TRUST + "Up to 8 groups of 4, 4 components, 4 dimensions. Whole-relation walks of the iterator are only required for relations without empty groups (it does not skip them); O2MIndex, many-walks and compact_to are checked with empty groups as well.",
    stages=[dict(name="C23", components=BP)],
)

PROPS["C20"] = P(
    title="Partitioning keeps every mesh element once, unaltered, and map_back undoes it",
    statement="For every set of domains (uniform, rectilinear, structured, unstructured, mixed-shape, polygonal, polyhedral, 1D to 3D, domains that touch or lie apart, of one or of several kinds), every list of selections (logical, explicit, ranges, field; domain ids, 'any'; destination domains) and every target, blueprint::mesh::partition ends and gives valid domains that together hold exactly the selected elements (all elements without selections), each once and with its shape and points; "
    "the number of domains is the target when one applies; every kept field (the fields option), vertex or element, has in every place the value it had in the source, and so has every material set; the mapping fields name the source domain and element (and a source vertex with that position), or are absent with mapping 0; selections by field give domains numbered by the field; a selection that names an element repeatedly selects the named elements and no others. "
    "partition_map_back then writes new and changed fields back so that every source element (and vertex, by global vertex ids) that the partition holds has the new value and every other keeps its old one. The source does not change otherwise.",
    over=["inputs"],
    quant="all generated sets of domains, selections, targets and fields",
    why="Silently lost or doubled elements after repartitioning are invisible in any picture of the mesh; the tests compare a few example meshes with saved baselines.",
    files=["src/libs/blueprint/conduit_blueprint_mesh_partition.cpp", "src/libs/blueprint/conduit_blueprint_mesh_partition.hpp", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp"],
    mech=[("selections", "Selection classes: init, partition, get_element_ids"), ("splitting", "Partitioner::split_selections"), ("extraction and wrapping", "Partitioner::extract, wrap, copy_fields, copy_matsets"), ("combination", "Partitioner::combine, coordset, topology, fields and matset combine"), ("mapping back", "Partitioner::map_back_fields")],
    observe=["blueprint::mesh::partition and partition_map_back"],
    technique=TECH + "generated domains, selections and targets against the set of selected (domain, element) pairs with their shapes, positions, field values and materials",
    rule="A case is one set of domains with options, partitioned (and mapped back). Non-trivial: more than one element or selected piece; for materials more than one material.",
    note=TRUST + "Up to 3 domains of up to about 60 elements and one topology. Implicit points topologies, overlap between selections, merge_tolerance, adjacency sets and MPI are not covered. Known finding: parts cut out of multi-buffer material-dominant matsets have empty nodes for absent materials.",
    stages=[dict(name="C20", components=BP)],
)

PROPS["C15"] = P(
    title="Relay MPI moves trees between ranks unchanged, for every schedule MPI allows",
    statement="For every number of ranks, every tree (any nesting, leaf types, lengths, memory layouts; nodes that are part of a larger block; external memory) and every order in which ranks run and messages arrive: send/recv (with a prepared receiver), send_using_schema/recv_using_schema, isend/irecv with wait, wait_all and their variants, communicate_using_schema and the wildcard receives give the receiver exactly the tree that was sent (names, order, types, values), each message once, messages between two ranks with one tag in order; "
    "gather, all_gather and their using_schema variants give the list of all ranks' trees in rank order, broadcast and broadcast_using_schema the root's tree on every rank, and reduce, all_reduce and the sum/min/max/prod helpers the elementwise reduction, on the ranks they name and nowhere else. "
    "Nothing deadlocks whether sends are buffered or not, every request is completed, no message is left over or truncated, tags above MPI's bound are accepted by the non-blocking calls, sent nodes do not change, nothing outside of the described elements is written, and the error handler of the communicator is afterwards what it was.",
    over=["inputs", "schedules"],
    quant="all generated trees, layouts, message sets, rank counts and schedules",
    why="MPI programs depend on timing and buffering; the tests run a few fixed exchanges of small compact trees under one MPI library.",
    files=["src/libs/relay/conduit_relay_mpi.cpp", "src/libs/relay/conduit_relay_mpi.hpp"],
    mech=[("message with schema", "send_using_schema, recv_using_schema, communicate_using_schema::execute_internal"), ("raw messages", "send, recv, isend, irecv, wait, wait_all"), ("collectives", "gather*, all_gather*, broadcast*, reduce, all_reduce"), ("tag bounds", "safe_tag, TagLimits")],
    observe=["conduit::relay::mpi functions"],
    technique=TECH + "generated exchanges run on a deterministic stand-in for MPI (ranks are threads, the choice sequence picks the schedule, message arrival, wildcard matches and buffering), against the trees that were sent",
    rule="A case is one exchange among all ranks (several messages or up to three collectives). Non-trivial: two or more ranks and more than one MPI call.",
    note=TRUST + "The stand-in harness/fakempi/mpi.h replaces the MPI library; it is trusted to allow only what the MPI standard allows. Up to 4 ranks and 8 messages. Receivers that already hold data hold the same structure (update semantics otherwise merge); reductions into longer leaves, non-native byte order and the messages above 2 GB are not covered.",
    stages=[dict(name="C15", components=["core", "relay_mpi"])],
)

PROPS["C13"] = P(
    title="Saved meshes load back unchanged, in every file layout, serially and with MPI",
    statement="For every mesh of one or more domains (any coordsets, topologies, material and species sets, fields, adjacency and nesting sets, state; parts missing in some domains; given as one domain, list or object, in any memory layout), every protocol among hdf5, json and yaml and every combination of file_style, suffix, mesh_name and number_of_files, save_mesh or write_mesh to any path followed by load_mesh of the root file gives each domain as domain_NNNNNN in the given order with the same names, types and values (text keeps 15 digits and no integer or float widths) and domain ids numbered from 0; the directory holds the stated number of data files. "
    "Several meshes written with different mesh_names into one set of files each load as their own, a second write replaces values, a second save replaces everything. Root files with legacy file and tree patterns, or with a partition pattern and map in any domain order, load the domains they name. "
    "With MPI, for every distribution of domains over ranks (ranks and whole runs without domains included), every schedule and every number of loading ranks, the same files result and each domain is loaded on exactly one rank in balanced blocks; wrong options, missing or damaged root files and unknown mesh names raise an error on every rank. The mesh that is saved does not change.",
    over=["inputs", "schedules", "configurations"],
    quant="all generated meshes, options, protocols, distributions over ranks and schedules",
    why="Restart and plot files are the main use of relay; the tests save a few example meshes into the current directory.",
    files=["src/libs/relay/conduit_relay_io_blueprint.cpp", "src/libs/relay/conduit_relay_io_identify_protocol.cpp", "src/libs/relay/conduit_relay_io_handle.cpp"],
    mech=[("writing", "write_mesh: root_only, one file per domain, N domains to M files with batons"), ("paths", "gen_domain_to_file_map, BlueprintLegacyPathGenerator, BlueprintPartitonMapPathGenerator"), ("reading", "read_root_blueprint_index, read_mesh"), ("domain ids", "clean_mesh, generate_domain_ids")],
    observe=["relay::io::blueprint and relay::mpi::io::blueprint save_mesh, write_mesh, load_mesh and read_mesh"],
    technique=TECH + "round trips of generated meshes through files in a scratch directory, serially and on the deterministic stand-in for MPI, compared part by part with the mesh that was saved",
    rule="A case is one mesh (or several) with options, saved and loaded. Non-trivial: two or more domains (and ranks).",
    note=TRUST + "Uses the stand-in for MPI of C15. Up to 6 domains and 4 ranks. The domains of a mesh have the same kinds of coordsets and topologies; YAML empty strings, partition maps with missing domains, silo, sidre (see C14, C29) and real parallel file systems are not covered. Writing a second mesh into existing HDF5 files uses the same options and number of domains (documented limit).",
    stages=[dict(name="C13", components=["core", "blueprint", "relay", "relay_mpi", "blueprint_mpi", "relay_mpi_io"])],
)

PROPS["C21"] = P(
    title="flatten lists every vertex and element once with its place, ids and field values",
    statement="For every mesh of one or more domains (any topology kind and shape, 1D to 3D, explicit, uniform and rectilinear coordsets in any float types and layouts; further topologies, material-only fields and fields missing in some domains) and every choice of options (topology, field_names, fill_value, add_domain_info, add_element_centers, add_vertex_locations), blueprint::mesh::flatten gives valid tables in which each vertex and each element of each domain has exactly one row, domain by domain in order, with its coordinates or the mean of its points, its domain id and index, and the value of each vertex or element field of the topology in a column (per component) of integer or floating type as the field; "
    "rows of domains without the field hold the fill value; other fields have no column; named fields come in the given order; tables without columns are absent. blueprint::mpi::mesh::flatten gives the same table on the root rank (with mpi_rank when asked for), rank by rank, for every distribution of domains, ranks without domains, choice of root and schedule, and nothing on other ranks. The mesh does not change.",
    over=["inputs", "schedules"],
    quant="all generated meshes, options, distributions over ranks and schedules",
    why="Tables feed analysis tools that cannot see the mesh; the tests compare a few examples with saved tables.",
    files=["src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp", "src/libs/blueprint/conduit_blueprint_mesh_flatten.hpp", "src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp", "src/libs/blueprint/conduit_blueprint_mesh_utils_iterate_elements.hpp"],
    mech=[("allocation", "collect_mesh_info, get_fields_to_flatten, allocate_column, default_initialize_column"), ("rows", "flatten_single_domain, append_data, generate_element_centers"), ("parallel", "ParallelMeshFlattener: determine_global_fields, gather_global_mesh_metadata, gather_results")],
    observe=["blueprint::mesh::flatten and blueprint::mpi::mesh::flatten"],
    technique=TECH + "generated meshes and options against tables computed from the mesh model, serially and on the deterministic stand-in for MPI",
    rule="A case is one mesh with options, flattened. Non-trivial: two or more domains, and fields (serial) or two or more ranks (MPI).",
    note=TRUST + "Uses the stand-in for MPI of C15. Up to 4 (serial) or 5 (MPI) domains. Domains have the same axes and each field the same association and type in every domain; cylindrical axes, integer coordinates and mixed-shape topologies are not covered. The order of columns is only checked serially.",
    stages=[dict(name="C21", components=["core", "blueprint", "relay", "relay_mpi", "blueprint_mpi"])],
)

PROPS["C26"] = P(
    title="Parallel mesh functions give what the serial ones give on all domains together",
    statement="For every distribution of domains over MPI ranks (ranks without domains included; local meshes given as one domain, list or object), every schedule and every mesh: blueprint::mpi::mesh::verify is true on all ranks exactly when every rank's mesh verifies; number_of_domains, generate_index, generate_domain_to_rank_map, find_delegate_domain and generate_domain_ids give every rank the answer for all domains in rank order. "
    "distribute gives each rank exactly a copy of every domain the map lists for it (domains listed for several ranks or none included), in the order of domain ids. partition gives, over all ranks, valid domains that together hold exactly the selected elements once and unaltered with their fields and original ids, in the number asked for, each domain on one rank (the rank given by destination_ranks for field selections); partition_map_back brings changed and new fields of the parts back to the original elements and vertices on the ranks that own them and changes nothing else. No call deadlocks, and inputs do not change.",
    over=["inputs", "schedules", "configurations"],
    quant="all generated meshes, options, distributions over ranks and schedules",
    why="Parallel codes call these with arbitrary distributions, where a rank without domains or an unlucky order deadlocks or loses data; the MPI tests need mpiexec, use two to four ranks and fixed meshes.",
    files=["src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp", "src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp", "src/libs/blueprint/conduit_blueprint_mesh_partition.cpp"],
    mech=[("reductions", "verify, number_of_domains, generate_index, generate_domain_to_rank_map, find_delegate_domain, generate_domain_ids"), ("moving domains", "distribute; ParallelPartitioner: map_chunks, communicate_chunks"), ("moving fields back", "communicate_mapback, synchronize_gvids")],
    observe=["blueprint::mpi::mesh functions"],
    technique=TECH + "generated distributions of generated meshes run on the deterministic stand-in for MPI, against the serial functions and the mesh model",
    rule="A case is one distributed mesh and one call (partition and map_back: both). Non-trivial: two or more ranks and two or more domains (or parts).",
    note=TRUST + "Uses the stand-in for MPI of C15. Up to 4 ranks and 5 domains; domains have ids, or none has (distribute: then at most one domain per rank). Adjacency sets, parmetis and the parallel generate_* functions are not covered here; empty objects inside a domain are not sent (they arrive as empty nodes).",
    stages=[dict(name="C26", components=["core", "blueprint", "relay", "relay_mpi", "blueprint_mpi"])],
)

PROPS["C25"] = P(
    title="Adjacency sets name the same shared entities in the same order on all sides",
    statement="For every mesh (2D and 3D, quads, triangles, hexes, tets) cut into domains in any way (any domain ids, any order of points and elements in each domain, ids and values of any integer type) with a vertex adjacency set in any grouping: adjset::is_pairwise, is_maxshare and is_canonical tell the form; to_pairwise and to_pairwise_canonical give one group per neighbour with exactly the shared vertices, to_maxshare one group per set of domains with exactly the vertices those share, both with canonical names and the same vertices in the same order on all sides. "
    "generate_points, generate_lines (2D), generate_faces and generate_corners with an adjacency set give a set in which an entity is listed for two domains exactly when both have it (lines and faces: on the boundary of each), again grouped, named and ordered alike on all sides (generate_lines in 3D: only such entities), serially and with MPI for every distribution and schedule. adjset::validate accepts right sets and rejects sets with an entity the neighbour does not have or a neighbour that does not name the domain; compare_pointwise accepts sets whose sides agree and rejects sets out of order, with an entity too few or on one side only, serially and with MPI. "
    "PointQuery (serial and MPI) gives for each point the first point of the asked domain within the tolerance or NotFound, also with the search tree for large coordsets. paint_adjset counts the groups of each vertex and gives its place in each.",
    over=["inputs", "schedules"],
    quant="all generated meshes, decompositions, groupings, distributions over ranks and schedules",
    why="Parallel codes exchange halo data in the order adjacency sets give; one entity out of place on one side sums the wrong values. The tests use regular decompositions of a few meshes with consecutive domain ids.",
    files=["src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mesh_utils.cpp", "src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp", "src/libs/blueprint/conduit_blueprint_mpi_mesh.cpp", "src/libs/blueprint/conduit_blueprint_mesh_kdtree.hpp"],
    mech=[("conversion", "mesh::adjset::to_pairwise, to_maxshare; utils::adjset::canonicalize, to_pairwise_canonical"), ("derived sets", "generate_derived_entities, generate_decomposed_entities, MatchQuery, PointQuery"), ("checks", "utils::adjset::validate, compare_pointwise, serial and MPI"), ("search", "kdtree, PointQuery::acceleratedSearch, normalSearch")],
    observe=["groups of the adjacency sets, results of the checks and queries"],
    technique=TECH + "generated decompositions of a global mesh whose shared entities are known, against that global mesh, serially and on the deterministic stand-in for MPI",
    rule="A case is one decomposed mesh and one operation on its adjacency set. Non-trivial: more than two shared vertices.",
    note=TRUST + "Uses the stand-in for MPI of C15. Up to 5 domains, 4 ranks and 4x3x2 cells. generate_sides and generate_centroids with adjacency sets are not covered (their sets are only approximate in this version), nor structured adjacency windows.",
    stages=[dict(name="C25", components=["core", "blueprint", "relay", "relay_mpi", "blueprint_mpi"])],
)

PROPS["C16"] = P(
    title="Tables verify exactly as the protocol says and survive CSV files",
    statement="table::verify (directly and as blueprint::verify(\"table\")) accepts exactly the nodes the table protocol describes - \"values\" an object or list whose columns are all arrays or mcarrays with one common number of elements, or a non-empty collection of such tables - reports rows, columns and tables, never fails with an error and leaves its input alone. "
    "For every valid table of numeric columns (any numeric type and memory layout, single arrays or components, named or unnamed columns and components, any number of rows including none) and every named or unnamed collection of such tables, writing it as CSV and reading it back (write_csv and read_csv, relay::io save and load) gives the same tables, columns, components, order and rows, as float32 or with use_float64 as float64, with values equal up to the six digits the files carry; a node that is not a table is refused and leaves no file. "
    "read_csv reads any regular comma separated text of numbers, with or without a header line, blanks, Windows line ends and a final newline, and reports an error for rows with too many entries, too few entries or an entry that is not a number. Names with commas or slashes and the order of named tables are left open.",
    over=["inputs"],
    quant="all generated tables, collections and texts",
    why="CSV output feeds other programs; a shifted column or a lost row is not noticed there. The tests write two or three example tables and read back only files they wrote.",
    files=["src/libs/blueprint/conduit_blueprint_table.cpp", "src/libs/relay/conduit_relay_io_csv.cpp", "src/libs/relay/conduit_relay_io.cpp", "src/libs/blueprint/conduit_blueprint_mcarray.cpp"],
    mech=[("protocol", "table::verify, verify_table_values, verify_many_tables"), ("writing", "write_csv, write_header, write_row_based"), ("reading", "read_csv, read_column_names, add_columns, read_csv_data, read_many_tables")],
    observe=["result and report of verify, tables read back, errors"],
    technique=TECH + "generated tables round tripped through files, generated CSV text against its known numbers, and mutated tables against a predicate written from the protocol",
    rule="A case is one table or collection, text, or candidate table. Non-trivial: at least two rows and two columns (verify: a candidate with children).",
    note=TRUST + "Columns in non-native byte order and string columns are not covered. Up to 13 tables, 5 columns, 300 rows.",
    stages=[dict(name="C16", components=["core", "blueprint", "relay"])],
)

PROPS["C10"] = P(
    title="Python sees and stores exactly the data of the C++ objects",
    statement="For every value Python code can store in a Node (int, float, str, numpy scalars and arrays of every numeric type in every layout: strided, reversed, multidimensional in either order, other byte order, record fields, read-only; arrays of strings, lists and tuples, Nodes), by every way to store it, the node holds exactly those elements in order as a copy, and value(), [], child, fetch, iteration and the other accessors give them back with the same type; arrays of value() are views whose changes reach the node. "
    "Any sequence of paths set, fetched, removed, renamed, appended, swapped, moved, updated, compacted gives the tree the C++ operations give. set_external of one-dimensional arrays with any stride, of Nodes and of a Schema with a buffer shares memory both ways; Node.set(Schema, buffer) copies. Schemas and DataTypes built in Python have the entries and numbers given; their texts and those of nodes are the C++ ones with the arguments given. Files written from Python and read again hold the same data. "
    "Values that cannot be stored, integers that do not fit, missing paths, indices out of range, bad texts, bad files and wrong arguments raise an exception, never end the interpreter, and leave the node as it was.",
    over=["inputs", "histories"],
    quant="all generated values, array layouts, programs and wrong uses",
    why="Most users meet conduit through numpy arrays; a layout stored in the wrong order, a view that is a copy or a C++ exception that ends the interpreter shows only for particular layouts and arguments, of which the Python tests use a few contiguous ones.",
    files=["src/libs/conduit/python/conduit_python.cpp", "src/libs/conduit/python/conduit_utils_python.cpp", "src/libs/relay/python/conduit_relay_io_python.cpp", "src/libs/relay/python/conduit_relay_io_blueprint_python.cpp", "src/libs/blueprint/python/conduit_blueprint_mesh_python.cpp", "src/libs/blueprint/python/conduit_blueprint_mcarray_python.cpp", "src/libs/blueprint/python/conduit_blueprint_mesh_examples_python.cpp"],
    mech=[("storing", "PyConduit_Node_Set_From_Python, _Python_List, _Python_Tuple, _Numpy_String_Array, PyConduit_Fill_DataArray_From_PyArray"), ("reading", "PyConduit_Convert_Node_To_Python, PyConduit_createNumpyType"), ("external", "PyConduit_Node_set_external"), ("errors", "conversion of conduit::Error to Python exceptions")],
    observe=["conduit, conduit.relay.io and conduit.blueprint modules against the C++ objects they wrap"],
    technique=TECH + "generated values and programs run in an embedded Python interpreter on the modules built from the sources, against models read through the C++ interface",
    rule="A case is one value, program, layout, tree, schema, file or wrong use. Non-trivial: more than one element, child or step (wrong uses: all).",
    note=TRUST + "Python 3.12 and numpy 1.26 only, with address sanitizer. Views do not keep their node alive (documented), so nodes outlive them here. Not covered: set_external of arrays in the other byte order or with negative strides, two-dimensional string arrays, the mpi, web and silo modules.",
    stages=[dict(name="C10", components=["core", "blueprint", "relay", "python"])],
)

PROPS["C14"] = P(
    title="Meshes saved to Silo and Overlink files come back the same",
    statement="For every mesh of one to a few domains of up to three dimensions (uniform with an origin or spacing, rectilinear, structured, points and unstructured line, tri, quad, polygonal, tet, hex, wedge and pyramid topologies; x,y[,z] or z,r axes; coordinates and fields in any memory layout; vertex and element fields of float32, float64, int32 and int64 with one to three components, units and labels; materials in every layout with mixed field values; domains that lack a field or the materials; names that Silo has to change), io::silo save_mesh and write_mesh with every file style (default, root_only, multi_file, overlink), suffix, extension, mesh name and number of files, followed by load_mesh or read_mesh with every matset style, gives back each domain with the same points, elements in the same order, logical origin, axes, fields (in Overlink files also whether they depend on volume) with their association, type (Overlink: value), order and values, material volume fractions, mixed values and numbers, and domain id, cycle and time; the saved mesh is left alone.",
    over=["inputs"],
    quant="all generated meshes, write options and read options",
    why="Silo files are how these meshes reach VisIt and Overlink; a permuted vertex order, a shifted mixed value or a domain in the wrong file shows only for some shapes and options. The tests use the stock examples with few options.",
    files=["src/libs/relay/conduit_relay_io_silo.cpp", "src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp"],
    mech=[("writing", "write_mesh, silo_write_topo, silo_write_field, silo_write_matset, write_multimesh, write_multivars, write_multimats"), ("Overlink", "write_var_attributes, write_pad_dims, open_or_reuse_file"), ("reading", "read_mesh, read_mesh_domain, read_variable_domain, read_matset_domain")],
    observe=["the mesh load_mesh and read_mesh give"],
    technique=TECH + "generated meshes and options round tripped through files, against the mesh model",
    rule="A case is one mesh written and read with one set of options. Non-trivial: more than one domain or a field.",
    note=TRUST + "Up to 4 domains. HDF5-backed Silo files only (the PDB driver of the Silo library here loses state between files; the tests of the repository leave it out as well). Not covered: species sets, adjacency sets, polyhedra, connectivities that are not int32, unsigned values, appending to files (truncate false).",
    stages=[dict(name="C14", components=["core", "blueprint", "relay"])],
)

PROPS["C24"] = P(
    title="Registered allocators own every byte of their nodes",
    statement="For every history of operations (leaves of every type set by value, pointer, vector, string, DataType and Schema; trees set, updated, update_compatible'd, compacted, swapped and moved between nodes; children appended, removed, renamed; reset and set_allocator) on several nodes, each with the default or a registered allocator: the data of a node's whole tree comes from the allocator of the node (children inherit it; swap and move exchange it with the contents; set_allocator discards contents), every block is given back exactly once, to the free function of the allocator it came from, none is left when the nodes are gone, and views made with set_external free nothing. "
    "That memory is read and written by these operations, by serialize and by copies to other nodes only through the registered memcpy and memset handlers, within live blocks, so it need not be addressable, and the trees are the ones the same history gives in ordinary memory. conduit_allocate, conduit_free, conduit_memcpy, conduit_memset and conduit_memcpy_strided_elements use the allocator and handlers asked for and move exactly the elements named.",
    over=["histories", "inputs"],
    quant="all generated histories and allocator assignments",
    why="GPU codes rely on it: one direct store, or one buffer freed by the wrong function, crashes far from the cause. The tests count a few calls of an allocator whose memory is ordinary memory, so a direct access passes them.",
    files=["src/libs/conduit/conduit_node.cpp", "src/libs/conduit/conduit_utils.cpp"],
    mech=[("ownership", "Node::allocate, release, init, set_allocator, reset_allocator, walk_schema, mirror_node"), ("movement", "conduit_memcpy, conduit_memset, conduit_memcpy_strided_elements, AllocManager"), ("exchange", "Node::swap, move, compact_to, set_node, update, update_compatible")],
    observe=["Node::allocator, element_ptr, copies of the trees in ordinary memory, and the calls the allocators and handlers get"],
    technique=TECH + "stateful histories run twice, in unmapped address ranges served by recording allocators and in ordinary memory, and compared",
    rule="A case is one history or one strided copy. Non-trivial: at least two allocations by registered allocators (copies: several elements, not contiguous).",
    note=TRUST + "Up to three nodes and 15 steps. Operations that need to see values on the host (printing, conversions, arithmetic, file output other than serialize) are outside the promise.",
    stages=[dict(name="C24", components=["core"])],
)

PROPS["C27"] = P(
    title="The utilities split, join, escape, encode, format, hash, report and list exactly",
    statement="For every string and separator split_string / rsplit_string (and the path and file path forms, which keep a leading drive letter) give the parts before and after the first / last separator, split_string by a character all non-empty parts, trim_string the text without the characters at its ends, join_path / join_file_path a path that splits into its parts again. For every text unescape_special_chars(escape_special_chars(t)) is t and the escaped text is a valid JSON string; for every buffer base64_encode gives the standard encoding, base64_decode gives the bytes back, within the buffer sizes the library names. "
    "utils::format with named or ordered arguments of every type, and with maps (arrays in any layout, lists of strings) and an index, gives the text fmt's rules give, leaves its arguments alone, and reports every bad pattern, argument or index as a conduit::Error. float64_to_string reads back as the same number to 15 digits and never as an integer; value_fits, the integer and hex conversions and factor are exact; hashes depend on content, length and initial value only, and small changes change them. "
    "Info, warning and error messages reach the handler in force (C++ or C), once, with message, file and line, or throw an Error holding them. is_file, is_directory, file_size, list_directory_contents, create_directory and the remove functions agree with the file system.",
    over=["inputs", "histories"],
    quant="all generated strings, buffers, patterns, arguments, messages and directory trees",
    why="Paths, file names, JSON text and error reports of every part are made by these functions; a wrong split or a map read at the wrong place sends data to the wrong file. The tests use a few literals with compact arrays.",
    files=["src/libs/conduit/conduit_utils.cpp", "src/libs/conduit/conduit_utils.hpp", "src/libs/conduit/conduit_error.cpp", "src/libs/conduit/c/conduit_utils_c.cpp"],
    mech=[("strings", "split_string, rsplit_string, split_file_path, trim_string, join_path, escape_special_chars, unescape_special_chars"), ("encodings", "base64_encode, base64_decode, float64_to_string, hash, factor"), ("format", "utils::format(args), utils::format(maps)"), ("reports and files", "handle_error, set_error_handler, list_directory_contents, remove_path_if_exists")],
    observe=["conduit::utils functions and the C handlers"],
    technique=TECH + "generated inputs against reference implementations (RFC 4648, printf, stat and readdir), round trips and fuzzed patterns",
    rule="A case is one string, buffer, pattern, sequence of messages or directory history. Non-trivial: the input holds a separator, special character, several bytes, several parts.",
    note=TRUST + "POSIX file systems, in a scratch directory. string_is_integer is checked for 32 bit integers and for texts that do not start with a number only; '<drive>:\\:x' is left out of rsplit_file_path. Hash checks let one accidental collision per case pass.",
    stages=[dict(name="C27", components=["core"])],
)

PROPS["C28"] = P(
    title="Mesh reordering, slicing and rebuilding keep elements and values",
    statement="For every mesh of the kinds given below: slice_array and slice_field give the named entries, in order, with their type, in place as well. topology::unstructured::reorder gives the named elements in the given order (all or some), points in order of use, the point map (-1 for unused points) and every field of the topology with its values in the new places, in place as well; spatial_ordering (2D, 3D) and hilbert_ordering hold every element exactly once, and the gilbert curves visit every cell of a box once by steps to neighbouring cells. "
    "TopologyBuilder makes a valid topology of exactly the added entities on exactly the points they use; topology::search says for every entity whether the other topology has one with the same points; rewrite_connectivity and reindex_coords express a topology in another coordset without moving any point of an element. generate_boundary_partition_field gives every boundary entity the part of the element it bounds. "
    "generate_strip makes of every 1D mesh (uniform, rectilinear, structured, unstructured) a valid strip with one quad per line, in order, whose element fields and matsets have the values of the lines, and adds nothing else. is_multi_domain, number_of_domains, domains, to_multi_domain (sharing the data) and generate_domain_ids agree on the domains. Sources do not change.",
    over=["inputs"],
    quant="all generated meshes, layouts, ids, orders, entities and options",
    why="These functions renumber points and elements; a wrong number gives a plausible mesh with values in wrong places. The tests use a few regular meshes with compact arrays.",
    files=["src/libs/blueprint/conduit_blueprint_mesh_utils.cpp", "src/libs/blueprint/conduit_blueprint_mesh_utils.hpp", "src/libs/blueprint/conduit_blueprint_mesh.cpp", "src/libs/blueprint/conduit_blueprint_curves.hpp"],
    mech=[("slices", "slice_array, slice_field"), ("orders", "spatial_ordering (kdtree), hilbert_ordering, curves::gilbert2d, gilbert3d, unstructured::reorder"), ("sub-topologies", "TopologyBuilder, search, rewrite_connectivity, reindex_coords, PointQuery"), ("boundaries", "mesh::generate_boundary_partition_field"), ("strips", "mesh::generate_strip, can_generate_strip"), ("domains", "mesh::domains, to_multi_domain, generate_domain_ids")],
    observe=["blueprint::mesh and blueprint::mesh::utils functions"],
    technique=TECH + "generated meshes with a combinatorial model: the elements, points and values that must result are computed from the model and compared",
    rule="A case is one mesh with ids, an order, entities or options. Non-trivial: more than one element, id or entity.",
    note=TRUST + "Up to about 60 elements. reorder needs sizes and offsets and leaves polyhedral and mixed topologies aside; spatial_ordering gives nothing in 1D; boundaries of wedges and pyramids are left out (their sides are split by design); generate_strip needs a 'fields' entry.",
    stages=[dict(name="C28", components=BP)],
)

PROPS["C29"] = P(
    title="Sidre files read as the data store they hold",
    statement="For every Sidre data store (groups in groups; string, scalar, buffer, external and empty views at any level, also at the root; views that are strided, offset, partial, share a buffer or have a type of their own) in an HDF5 file, an IOHandle with protocol sidre_hdf5 reads every path, and the whole, as the tree of groups (first) and views with exactly their types and values. The same holds for a root file "
    "with an index over any number of trees in any number of files with any file and tree pattern (%d, %02d ... %09d with text around it): 'root' is the root file and '0', '1', ... are the trees. has_path and list_child_names agree with that tree, missing paths and tree ids out of range are errors for read, have no children and do not exist, and no answer depends on the calls before it. Writing and removing are errors. "
    "relay::io::blueprint::read_mesh and load_mesh of such a root file give all domains of the mesh, each with its own data (a single domain is the mesh itself).",
    over=["inputs", "histories"],
    quant="all generated data stores, trees, file counts and patterns; all histories of reads and queries through a handle",
    why="The tests read two files kept in the repository; views at the root, other patterns, fewer files than trees, shared buffers and repeated reads through one handle occur in neither.",
    files=["src/libs/relay/conduit_relay_io_handle_sidre.cpp", "src/libs/relay/conduit_relay_io_handle.cpp", "src/libs/relay/conduit_relay_io_blueprint.cpp"],
    mech=[("views", "load_sidre_tree, load_sidre_group, load_sidre_view"), ("meta data cache", "prepare_sidre_meta_tree, sidre_meta_tree_has_path, sidre_meta_tree_list_child_names"), ("files and trees", "expand_pattern, generate_domain_to_file_map"), ("meshes", "blueprint::read_mesh, sidre_hdf5")],
    observe=["IOHandle reads, has_path, list_child_names; the mesh read"],
    technique=TECH + "a generator of data stores writes the Sidre file layout and, beside it, the tree that readers must see; histories of reads and queries are compared with that tree",
    rule="A case is a data store (or up to five in up to five files) with up to eight reads and queries through one handle, or a mesh of up to four domains. Non-trivial: more than two views, or more than one domain.",
    note=TRUST + "The files follow the layout of the two example files in src/tests/relay/data and of the reader; Axom itself is not here to write them. Tree files are HDF5 with that extension; root files are HDF5 or JSON.",
    stages=[dict(name="C29", components=RELAY)],
)
