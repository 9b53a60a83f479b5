#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with MANIFEST.json)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

WF = ("A spec is well formed when its declared counts equal the lengths of its lists, its node and element data have the "
      "size their block header implies, entity dimensions are 0..3, parametric is 0 or 1, element types are 1..31, and its mesh format is one the library supports.")

prop("C01", "4.1 binary round trip is lossless for the mesh",
     "Saving any well-formed spec as MSH 4.1 binary and loading the result gives back the same mesh format, nodes, elements, entities and physical groups, value for value and in the same order, with every double bit-identical. " + WF,
     ["inputs"], "every well-formed spec with any number and size of blocks, any tags, any coordinates, parametric or not, any entities, any physical group names; a section whose total count is 0 is empty",
     "The tests round-trip about ten hand-made specs with one or two blocks, never a parametric node block, never compare entities or physical groups at all, and cannot cover all counts and sizes.",
     ["src/save_msh.cpp", "src/save_msh_format.cpp", "src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/save_msh_entities.cpp", "src/save_msh_physical_groups.cpp", "src/load_msh.cpp", "src/load_msh_format.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_entities.cpp", "src/load_msh_physical_groups.cpp", "src/io_utils.cpp"],
     [("binary 4.1 writers", "src/save_msh_*.cpp v41::save_*_binary"), ("binary 4.1 readers", "src/load_msh_*.cpp v41::load_*_binary"), ("single separator before raw bytes", "src/io_utils.cpp eat_white_space")],
     ["save_msh(ostream, spec) followed by load_msh(istream)"])
prop("C02", "4.1 ASCII round trip is lossless for the mesh",
     "Saving any well-formed spec as MSH 4.1 ASCII and loading the result gives back the same mesh format, nodes, elements, entities and physical groups, value for value and in the same order; every finite double comes back exactly. " + WF,
     ["inputs"], "every well-formed spec whose doubles are finite, with any number and size of blocks, any tags, any entities, any physical group names (quotes, blanks and newlines included)",
     "The tests use only coordinates such as 0, 1 and 0.1 that survive a six-digit print, never a parametric block, and never compare entities or physical groups; exactness over all doubles is out of reach for samples.",
     ["src/save_msh.cpp", "src/save_msh_format.cpp", "src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/save_msh_entities.cpp", "src/save_msh_physical_groups.cpp", "src/load_msh.cpp", "src/load_msh_format.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_entities.cpp", "src/load_msh_physical_groups.cpp"],
     [("ASCII 4.1 writers", "src/save_msh_*.cpp v41::save_*_ascii"), ("ASCII 4.1 readers", "src/load_msh_*.cpp v41::load_*_ascii"), ("output precision", "src/save_msh.cpp")],
     ["save_msh(ostream, spec) followed by load_msh(istream)"])
prop("C03", "2.2 round trip keeps every node and element, in order",
     "Saving a well-formed spec whose tags are positive 31-bit numbers, the node tags used by elements lying between the smallest and the largest node tag, as MSH 2.2 (ASCII or binary) and loading the result gives back the same sequence of nodes (tag, x, y, z), the same sequence of elements (tag, type, dimension of the type, owning entity tag, node tags), the same physical groups, and totals and tag bounds that match. Only what the 2.2 format cannot store (parametric coordinates, entities, block boundaries) may differ. " + WF,
     ["inputs"], "every well-formed spec with node and element tags in 1..2^31-1 and element node tags within the node tag bounds; both encodings; doubles finite for ASCII; memory suffices for the range of node tags",
     "The tests cover single-type specs of at most eight nodes and compare blocks only where regrouping happens to be the identity.",
     ["src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/save_msh_physical_groups.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_post_process.cpp", "src/load_msh.cpp", "src/save_msh.cpp"],
     [("2.2 writers", "src/save_msh_{nodes,elements}.cpp v22::*"), ("2.2 readers", "src/load_msh_{nodes,elements}.cpp v22::*"), ("regrouping", "src/load_msh_post_process.cpp")],
     ["save_msh(ostream, spec) followed by load_msh(istream)"])
prop("C04", "Post-processing data round trips in all four encodings",
     "For any spec whose node data, element data and element-node data are well formed (at least three integer tags; the third equals the number of entries; each entry holds the number of values the second tag, times its own node count for element-node data, announces), saving and loading in 4.1 or 2.2, ASCII or binary, gives back every data section in order with equal string, real and integer tags and equal entries (tag, values, and for element-node data the node count). Doubles come back exactly.",
     ["inputs"], "any number of data sections, tags, fields and entries; any strings; entry tags below 2^31; finite real tags, finite values for ASCII",
     "Three tests with one or two sections, one field and small round values; no multi-field data, no strings needing quoting, no inexact decimals.",
     ["src/save_msh_data.cpp", "src/load_msh_data.cpp", "src/save_msh.cpp", "src/load_msh.cpp"],
     [("data writer", "src/save_msh_data.cpp internal::save_data"), ("data reader", "src/load_msh_data.cpp internal::load_data")],
     ["save_msh(ostream, spec) followed by load_msh(istream)"])
prop("C05", "NanoSpline curves and patches round trip",
     "With the NanoSpline extension enabled, saving a spec whose curves and patches have data sizes matching their control point, weight and knot counts and loading it back gives the same extension version (one word), curves and patches, all header fields and all control values and knots in order, in ASCII and in binary. Doubles come back exactly.",
     ["inputs", "configurations"], "every list of curves and patches with consistent sizes, weighted or not, any knot counts; both encodings; finite doubles for ASCII",
     "One test with zero knots everywhere and one-digit coordinates; patches are not compared at all.",
     ["src/save_msh_curves.cpp", "src/load_msh_curves.cpp", "src/save_msh_patches.cpp", "src/load_msh_patches.cpp", "src/save_msh_nanospline_format.h", "src/load_msh_nanospline_format.h", "src/save_msh.cpp", "src/load_msh.cpp"],
     [("extension writers", "src/save_msh_curves.cpp, src/save_msh_patches.cpp"), ("extension readers", "src/load_msh_curves.cpp, src/load_msh_patches.cpp")],
     ["save_msh(ostream, spec) followed by load_msh(istream), built with MSHIO_EXT_NANOSPLINE"])
prop("C06", "Written files follow the MSH layout",
     "For every well-formed spec the bytes written are exactly the sections of the MSH 4.1 or 2.2 format that are non-empty, each opened and closed by its markers, in the order format, physical names, entities (4.1 only), nodes, elements, node data, element data, element-node data; inside a section every field has the position, the encoding (decimal text or raw little-endian) and the width the format documents, so that any conforming reader, not just this library, reads the same mesh. In binary files raw bytes follow exactly one line break after text, and the closing marker follows the last raw byte directly. Text tokens are separated by white space. " + WF,
     ["inputs"], "every well-formed spec, versions 4.1 and 2.2, ASCII and binary",
     "The tests only read files back with the same library, so a layout error made the same way in writer and reader is invisible to them.",
     ["src/save_msh.cpp", "src/save_msh_format.cpp", "src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/save_msh_entities.cpp", "src/save_msh_physical_groups.cpp", "src/save_msh_data.cpp"],
     [("section order", "src/save_msh.cpp save_msh"), ("field layout", "src/save_msh_*.cpp")],
     ["bytes written by save_msh(ostream, spec)"])
prop("C07", "Loading is memory safe for every input",
     "For every byte sequence given as input, loading either returns a spec or throws an exception: it never reads or writes outside its buffers, never uses an uninitialised value, never divides by zero and never overflows a signed computation.",
     ["inputs"], "every finite byte sequence: truncated, corrupted or hostile, any declared counts, any tag values, any mixture of sections",
     "The tests only load well-formed files; hostile counts and tags are not sampled, and no sanitizer runs in the suite.",
     ["src/load_msh.cpp", "src/load_msh_format.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_entities.cpp", "src/load_msh_data.cpp", "src/load_msh_physical_groups.cpp", "src/load_msh_post_process.cpp", "src/load_msh_curves.cpp", "src/load_msh_patches.cpp", "src/io_utils.cpp", "src/element_utils.cpp"],
     [("sizes set by resize before indexing", "src/load_msh_*.cpp"), ("element type check", "src/element_utils.cpp assert_element_is_supported"), ("tag range check before regrouping", "src/load_msh_post_process.cpp")],
     ["load_msh(istream) on arbitrary bytes"])
prop("C08", "Loading always finishes",
     "For every finite input, loading finishes: it returns or throws after finitely many steps, and it never loops forever once the input is exhausted or has become unreadable.",
     ["inputs"], "every finite byte sequence, including text where a number is expected, truncation at any byte and any declared counts",
     "The tests never feed unreadable text or truncated files, so they never enter the state in which a loop stops making progress.",
     ["src/load_msh.cpp", "src/load_msh_elements.cpp", "src/load_msh_nodes.cpp", "src/load_msh_data.cpp", "src/load_msh_entities.cpp", "src/io_utils.cpp"],
     [("section loop and marker search", "src/load_msh.cpp load_msh, forward_to"), ("element block loop", "src/load_msh_elements.cpp v22::load_elements_binary")],
     ["load_msh(istream) on arbitrary bytes"])
prop("C09", "A damaged section is never returned as data",
     "If loading returns normally, every value of every recognised section was really read from the input: when a recognised section is cut short, or contains text where a number is expected so that reading it fails, loading throws instead of returning a spec with made-up or default values.",
     ["inputs"], "every input and every truncation or corruption point inside a recognised section",
     "No test loads a truncated or corrupted file.",
     ["src/load_msh.cpp", "src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_entities.cpp", "src/load_msh_data.cpp", "src/load_msh_physical_groups.cpp"],
     [("stream state check after each section", "src/load_msh.cpp load_msh")],
     ["load_msh(istream): normal return or exception"])
prop("C10", "A loaded spec is internally consistent",
     "Whatever the input, a spec returned by loading is consistent: the number of node and element blocks equals the declared one, every node block has as many tags as it declares and 3 (plus the entity dimension when parametric) coordinates per node, every element block has a supported type and exactly (1 + nodes of the type) entries per declared element, and every data section has as many entries as its header declares, each of the declared size. For a 2.2 file the number of nodes is the sum over the blocks.",
     ["inputs"], "every input for which loading returns normally",
     "Tests check the counts of four fixed files.",
     ["src/load_msh_nodes.cpp", "src/load_msh_elements.cpp", "src/load_msh_data.cpp", "src/load_msh_post_process.cpp", "src/load_msh.cpp"],
     [("resize to the declared count", "src/load_msh_*.cpp"), ("overflow checks on declared counts", "src/load_msh_elements.cpp, src/load_msh_data.cpp"), ("block recount after regrouping", "src/load_msh_post_process.cpp")],
     ["MshSpec returned by load_msh"])
prop("C11", "Validation accepts exactly the consistent specs",
     "Validating a spec returns normally exactly when the declared node and element block counts match the lists, the lower tag bounds do not exceed the upper ones, every node block has as many tags and coordinates as it declares, every element block has a whole positive number of entries per declared element (none if it declares no element), and all node tags, element tags and node tags used by elements lie within the declared bounds; otherwise it throws the corrupt-data exception. It never crashes, whatever the spec, including blocks that declare zero elements.",
     ["inputs"], "every spec value, consistent or not, with any number of blocks and entries (entity dimensions 0..3)",
     "The tests only validate specs that are consistent; no rejection and no degenerate block is ever exercised.",
     ["src/validate_spec.cpp"],
     [("checks", "src/validate_spec.cpp validate_spec")],
     ["validate_spec(spec): returns or throws CorruptData"])
prop("C12", "Saving a validated spec never reads out of bounds",
     "Saving a spec that validation accepts, whose element types are supported whose entity dimensions are 0..3 and whose declared element data size matches the type, either completes or throws a library exception: it never reads outside the spec's lists, in any version and encoding, whatever the contents of the lists (built without the NanoSpline extension, or without curves and patches).",
     ["inputs"], "every spec accepted by validation (data sections and entities arbitrary), both versions and encodings",
     "The tests save only a handful of small consistent specs and no sanitizer runs in the suite.",
     ["src/save_msh.cpp", "src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/save_msh_entities.cpp", "src/save_msh_data.cpp", "src/save_msh_physical_groups.cpp"],
     [("loops bounded by the validated counts", "src/save_msh_*.cpp")],
     ["save_msh(ostream, spec)"])
prop("C13", "Element catalogue matches the documentation",
     "For each element type 1..31 the reported number of nodes and the reported dimension are those of the documented table, and for every other integer both queries throw the unsupported-feature exception.",
     ["inputs"], "all 2^32 element type values",
     "Five of the 31 types occur in the tests; no invalid type is ever passed.",
     ["src/element_utils.cpp", "README.md"],
     [("tables and range check", "src/element_utils.cpp")],
     ["nodes_per_element(type), get_element_dim(type)"])
prop("C14", "Unsupported formats are refused, not misread or miswritten",
     "Loading a header succeeds only if the version is 2.2 or 4.1, the data size of a 4.1 file is that of size_t, and a non-ASCII file carries the native byte-order mark; in every other case loading throws the unsupported-feature exception. Saving a spec whose version is neither 2.2 nor 4.1 throws instead of writing a file.",
     ["inputs", "configurations"], "every header text and byte-order word; every version string in a spec, whatever sections it has",
     "The tests use only supported headers and versions.",
     ["src/load_msh_format.cpp", "src/save_msh_format.cpp", "src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/save_msh.cpp"],
     [("header checks", "src/load_msh_format.cpp load_mesh_format"), ("version dispatch on save", "src/save_msh_*.cpp")],
     ["load_msh(istream), save_msh(ostream, spec)"])
prop("C15", "2.2 element tags become entities with physical groups",
     "When a 2.2 file (ASCII or binary) is loaded, every element with at least two tags belongs to the entity named by its second tag in the dimension of its type; the result lists, per dimension, exactly one entity for each such second tag in increasing order, and its physical groups are exactly the first tags of the elements of that dimension carrying that second tag. An element with one tag belongs to the entity of that number and one without tags to entity 1; neither creates an entity.",
     ["inputs"], "every 2.2 $Elements section with any number of elements and tags, any interleaving of entities, types and physical tags; elements refer to nodes of the file",
     "One fixed file with two elements has tags; no test looks at the resulting entities.",
     ["src/load_msh_elements.cpp"],
     [("entity collection", "src/load_msh_elements.cpp v22::load_elements_*, create_entities")],
     ["MshSpec.entities and element block entity tags returned by load_msh"])
prop("C16", "2.2 regrouping preserves order and yields uniform blocks",
     "Loading a 2.2 file arranges nodes and elements into blocks without losing, duplicating, reordering or altering any of them: read through the blocks in order they are the file's sequences. Each element block holds only elements of one type, dimension and entity, each node block only nodes owned by one entity (that of the last listed element using the node, or dimension 0 and tag 0 for unused nodes), and neighbouring blocks differ.",
     ["inputs"], "every 2.2 file with any number and interleaving of nodes, elements, types and entities, elements referring to nodes within the range of the node tags",
     "The tests reload at most two blocks whose order happens to match the expected grouping.",
     ["src/load_msh_post_process.cpp"],
     [("node regrouping", "src/load_msh_post_process.cpp v22::regroup_nodes_into_blocks"), ("element regrouping", "src/load_msh_post_process.cpp v22::regroup_elements_into_blocks")],
     ["MshSpec.nodes and MshSpec.elements returned by load_msh"])
prop("C17", "Unknown sections are skipped without side effects",
     "Inserting sections with unknown names, each closed by its own end marker and free of that marker inside, and stray text (words not starting with $) outside sections, before, between or after the known sections of a file changes nothing in the loaded spec; each known section is read exactly once and by the reader for its kind.",
     ["inputs"], "any number of unknown sections with any content, at any section boundary of any valid file",
     "No test file contains an unknown section.",
     ["src/load_msh.cpp"],
     [("dispatch and forward_to", "src/load_msh.cpp load_msh, forward_to")],
     ["load_msh(istream)"])
prop("C18", "File errors are reported",
     "Loading from a path that cannot be opened and saving to a path that cannot be opened throw, and so does loading from a path that cannot be read; if saving to a path returns normally then every byte of the file was accepted by the output stream, so a full disk or write error is never silent.",
     ["fault_sequences", "inputs"], "every path, a read failure and a write failure at any byte",
     "The tests write to string streams only and never see an I/O error.",
     ["src/save_msh.cpp", "src/load_msh.cpp"],
     [("open check and final stream check", "src/save_msh.cpp save_msh(filename), src/load_msh.cpp load_msh(filename)")],
     ["save_msh(path, spec), load_msh(path)"])
prop("C19", "Python bindings expose every field faithfully",
     "Every field of the spec types is readable and writable from Python under its own name and reaches the same C++ field, and the module's functions behave as the C++ functions.",
     ["inputs", "programs"], "every field, every function, every Python program using them",
     "The bindings are neither built nor tested here.",
     ["python/pymshio.cpp", "python/mshio/__init__.py"],
     [("nanobind class definitions", "python/pymshio.cpp")],
     ["import mshio in Python"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
