#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("P01", "Writing objects as OSM XML and reading them back loses and changes nothing",
  "Any sequence of nodes, ways and relations written with the XML writer (one writer, finished once) and read back with the XML reader comes back as the same objects in the same order. Every id, version, visibility, changeset, timestamp, uid, user, tag list, coordinate, node list and member list (type, id, role, order) is unchanged, a field that was absent stays absent, and strings keep every character, whitespace and markup characters included. This holds for deleted nodes without coordinates and objects without a version too.",
  ["inputs"], "every finite sequence of objects whose strings consist of characters XML 1.0 can represent, over the full range of each field's type (years 0000-9999 for timestamps)",
  "The only writer test writes one untagged node and compares bytes; nothing is read back and no way, relation, tag, missing field or special character in a tag is ever exercised.",
  ["src/xml/mod.rs", "src/lib.rs", "src/utils.rs"],
  [("XMLWriter::write_obj and attribute escaping", "src/xml/mod.rs"), ("XMLReader::next and xml_elements_to_osm_obj", "src/xml/mod.rs"), ("TimestampFormat display / Lat, Lon display and parse", "src/lib.rs")],
  observe=["objects passed to write_obj", "objects returned by next()"])
p("P02", "Writing objects as an OSC change file and reading them back is lossless",
  "Any sequence of nodes, ways and relations written with the change-file (OSC) writer, whether it is closed explicitly or dropped, and read back with the OSC reader comes back as the same objects in the same order. Every field, including visibility, absent fields, tag order, node lists, members and every character of every string, is unchanged.",
  ["inputs"], "every finite sequence of objects whose strings consist of characters XML 1.0 can represent, over the full range of each field's type (years 0000-9999 for timestamps)",
  "No test touches the OSC reader or writer at all.",
  ["src/osc/mod.rs", "src/xml/mod.rs"],
  [("OSCWriter::write_obj / close / Drop", "src/osc/mod.rs"), ("OSCReader::next", "src/osc/mod.rs")],
  observe=["objects passed to write_obj", "objects returned by next()"])
p("P03", "Written XML is well-formed and says exactly what the objects say",
  "Whatever objects and headers are written, the XML writer's and the OSC writer's output is one well-formed XML document in OSM layout: the osm (or osmChange) root with version 0.6, a generator and the headers that were set, then one node, way or relation element per object in order, nothing more. An independent, conforming XML parser reads from it exactly the objects' data: ids, visible flag, version, user, uid, changeset, ISO 8601 UTC timestamp, decimal-degree coordinates exact to 100 nanodegrees, nd references, members and tags. Data can never break out of its attribute.",
  ["inputs"], "every finite sequence of objects and headers whose strings consist of characters XML 1.0 can represent, years 0000-9999",
  "The tests compare one self-closing node byte for byte and eight inputs of the escape helper; well-formedness and meaning over all text, object kinds, and headers are never judged, and never by an independent parser.",
  ["src/xml/mod.rs", "src/osc/mod.rs", "src/lib.rs"],
  [("ensure_header, write_obj, close", "src/xml/mod.rs, src/osc/mod.rs"), ("write_xml_escaped", "src/xml/mod.rs")],
  observe=["bytes received by the writer's sink"])
p("P04", "The XML reader reports exactly the objects an OSM XML document contains",
  "For every well-formed OSM XML document the XML reader yields one object per node, way and relation element, in document order, with exactly the attributes, tags, node references and members the document gives, in order. Attribute order, quoting, entities and character references, whitespace, comments, self-closing form, child order and unknown elements or attributes make no difference. Optional attributes that are absent come back as absent (visible counts as true), nodes without coordinates are still returned, and no element ends or derails the stream.",
  ["inputs"], "every well-formed UTF-8 OSM XML document whose objects have a valid id and whose other attributes, where present, are valid",
  "One test reads four small documents and looks only at whether ways are closed; attributes, members, tags on nodes, deleted nodes, entities and foreign layouts are unread.",
  ["src/xml/mod.rs"],
  [("XMLReader::next element grouping", "src/xml/mod.rs"), ("get_xml_attribute, get_tags, get_nodes, get_members", "src/xml/mod.rs"), ("node/way/relation_xml_elements_to_osm_obj", "src/xml/mod.rs")],
  observe=["objects returned by next()"])
p("P05", "The OSC reader reports every change, and reports deletions as deleted",
  "For every well-formed osmChange document the OSC reader yields one object per node, way and relation element in the create, modify and delete sections, in document order and with exactly the document's data. Every object inside a delete section is reported as deleted, whether or not it carries coordinates or a visible attribute; an object in another section is deleted exactly when it says visible=\"false\".",
  ["inputs"], "every well-formed UTF-8 osmChange document with any number and order of create/modify/delete sections, whose objects have a valid id and otherwise valid attributes",
  "No test reads an osmChange document.",
  ["src/osc/mod.rs", "src/xml/mod.rs"],
  [("OSCReader::next section tracking", "src/osc/mod.rs"), ("xml_elements_to_osm_obj", "src/xml/mod.rs")],
  observe=["objects returned by next()"])
PBFDOM = "every valid PBF file with dense nodes, ways and relations: any split into blocks and groups, any granularity, offset and date granularity, raw or zlib blobs, header and unknown blobs in between, metadata complete, partial or absent, packed or unpacked arrays, unknown fields; coordinates within 32-bit 100-nanodegree units"
p("P06", "The PBF reader returns exactly the objects a PBF file encodes",
  "For every valid PBF file the default PBF reader yields exactly the encoded nodes, ways and relations in file order, each with its id, tags in order, node list or member list (type, id, role), coordinates, version, changeset, uid, user, timestamp and visibility. How the file is laid out (blocks, groups, compression, granularity, offsets, string table, delta coding, other blobs in between) makes no difference. Metadata the file omits is reported as absent, and objects are deleted only where the file says visible=false.",
  ["inputs"], PBFDOM,
  "The PBF test files are commented out and not compiled in; no test decodes a single PBF byte.",
  ["src/stringpbf/mod.rs", "src/stringpbf/osmformat.rs", "src/stringpbf/fileformat.rs"],
  [("FileReader::get_next_osmdata_blob and blob_raw_data", "src/stringpbf/mod.rs"), ("decode_dense_nodes / decode_ways / decode_relations delta decoding", "src/stringpbf/mod.rs"), ("decode_block_to_objs group loop", "src/stringpbf/mod.rs")],
  state=[dict(name="last_* accumulators", meaning="running sums of the delta-coded columns", where="src/stringpbf/mod.rs decode_dense_nodes")],
  observe=["objects returned by next()"])
p("P07", "The shared-string PBF reader returns exactly the objects a PBF file encodes",
  "For every valid PBF file the reader that returns reference-counted (Arc) objects yields exactly the encoded nodes, ways and relations in file order with all their data, as the default PBF reader must. Block and group layout, compression, granularity, offsets and delta coding make no difference; omitted metadata is absent and objects are deleted only where the file says visible=false.",
  ["inputs"], PBFDOM,
  "No test decodes a PBF file with either reader.",
  ["src/arcpbf/mod.rs", "src/arcpbf/osmformat.rs", "src/arcpbf/fileformat.rs", "src/obj_types/arc_types.rs"],
  [("blob_raw_data", "src/arcpbf/mod.rs"), ("decode_dense_nodes / decode_ways / decode_relations", "src/arcpbf/mod.rs"), ("reversed buffer popped from the end", "src/arcpbf/mod.rs")],
  observe=["objects returned by next()"])
p("P08", "The node position reader returns every node's id and exact position",
  "For every valid PBF file the node-position reader yields exactly the (id, latitude, longitude) of each node in file order: the same nodes and positions a full read gives, skipping ways and relations. Layout, granularity, offsets, compression and missing metadata make no difference.",
  ["inputs"], PBFDOM,
  "No test runs this reader.",
  ["src/stringpbf/node_id_pos.rs", "src/stringpbf/mod.rs"],
  [("PBFNodePositionReader::next", "src/stringpbf/node_id_pos.rs"), ("decode_block_to_objs", "src/stringpbf/node_id_pos.rs")],
  observe=["items returned by the iterator", "items of a full read of the same bytes"])
p("P09", "Reading only nodes, ways or relations never loses or reorders objects",
  "On every reader, asking for only nodes, only ways or only relations is the same as filtering the full object stream. In any history of calls that mixes full iteration and the three typed iterations on one reader, each partly consumed and then dropped, every call returns the next object of the requested kind after the position already reached, so nothing is skipped, repeated or reordered by an earlier request.",
  ["histories", "inputs"], "every interleaving of next, objects, nodes, ways and relations calls with any number of items taken from each, over every valid input of each reader",
  "No test calls nodes(), ways() or relations(), and none uses one reader twice.",
  ["src/stringpbf/mod.rs", "src/lib.rs"],
  [("PBFReader::nodes/ways/relations and the object filter", "src/stringpbf/mod.rs"), ("OSMReader::objects/nodes/ways/relations defaults", "src/lib.rs")],
  state=[dict(name="object filter and decoded-object buffer", meaning="which kinds are decoded, and what is decoded but not yet returned", where="src/stringpbf/mod.rs PBFReader")],
  observe=["objects returned by each iterator call"])
p("P10", "What is read depends on the bytes, not on how the source delivers them",
  "Every reader (XML, OSC, both PBF readers, node positions, changesets, changeset tags) returns the same results whether the source hands over its bytes at once, one at a time, in arbitrary pieces, or with interrupted reads in between. The source is also handed back by the readers that offer to return it, and reading never consumes it twice.",
  ["schedules", "inputs"], "every way of splitting every valid input into read() results, including interleaved ErrorKind::Interrupted",
  "Every test reads from an in-memory slice that always delivers everything at once.",
  ["src/xml/mod.rs", "src/osc/mod.rs", "src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/stringpbf/node_id_pos.rs", "src/changesets.rs"],
  [("read_u32 / read_exact framing", "src/stringpbf/mod.rs, src/arcpbf/mod.rs"), ("BufReader around the XML parsers", "src/xml/mod.rs, src/osc/mod.rs, src/changesets.rs")],
  observe=["each read() call on the source", "objects returned"])
p("P11", "A cut-off or failing source never yields wrong objects or looks complete",
  "When an XML, OSC or PBF input is cut off at any byte, or its source reports an I/O error at any byte, the reader returns only objects that the full input contains, unchanged and in order from the first one, and then stops with a failure. It reports a normal end of stream only if everything the input holds was delivered, which for PBF means the cut is exactly between two blocks, and an I/O error is never taken for the end of the file.",
  ["fault_sequences", "crash_points"], "every truncation point and every point at which the source starts failing, for every valid input",
  "No test feeds a truncated or failing source.",
  ["src/xml/mod.rs", "src/osc/mod.rs", "src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/stringpbf/node_id_pos.rs"],
  [("get_next_osmdata_blob end-of-file handling", "src/stringpbf/mod.rs, src/arcpbf/mod.rs"), ("parser error handling in next()", "src/xml/mod.rs, src/osc/mod.rs")],
  observe=["objects returned before the fault", "how the stream ends: end of stream or failure"])
p("P12", "Hostile input can make a reader fail, but never hang, abort or lose data",
  "Whatever bytes an XML, OSC or PBF reader is given, it terminates: after finitely many objects it ends or fails with an ordinary failure the caller can contain, without looping forever, exhausting the stack or aborting the process. A PBF block whose contents cannot be decoded (corrupt or unsupported compression, garbage instead of a block) is a failure, never skipped as if it were empty, and an XML or OSC object without a usable id is a failure, never the silent end of the file.",
  ["inputs"], "every byte string, in particular every mutation of valid files",
  "No test feeds malformed input to any reader.",
  ["src/xml/mod.rs", "src/osc/mod.rs", "src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/stringpbf/node_id_pos.rs"],
  [("blob_raw_data", "src/stringpbf/mod.rs, src/arcpbf/mod.rs"), ("xml_elements_to_osm_obj and its callers", "src/xml/mod.rs, src/osc/mod.rs"), ("reader loops in next()", "src/xml/mod.rs, src/osc/mod.rs, src/stringpbf/mod.rs")],
  observe=["termination (CPU time of the call)", "process exit status", "objects returned"])
p("P13", "Writers follow the open, writing, closed life cycle exactly",
  "A writer is open until it is closed; closing, even with nothing written, completes the document, after which the writer reports not open and refuses further objects and headers with the error AlreadyClosed, leaving the output as it was. Headers are accepted until the first object is written and then refused with the error AlreadyStarted; a format without headers always refuses them with FormatDoesntSupportHeaders. A writer that is dropped without being closed completes its document, and completing it again adds nothing.",
  ["histories"], "every sequence of set_header, write_obj, close, is_open and drop on the XML and OSC writers",
  "One test writes one object, closes once and drops; no other order of calls is tried, and no refusal is observed.",
  ["src/xml/mod.rs", "src/osc/mod.rs", "src/lib.rs"],
  [("State machine in write_obj, set_header, close, Drop", "src/xml/mod.rs, src/osc/mod.rs"), ("OSMWriter::from_iter and default set_header", "src/lib.rs")],
  state=[dict(name="_state", meaning="Initial, WritingObjects or Closed", where="src/xml/mod.rs, src/osc/mod.rs")],
  observe=["result of every call", "bytes received by the sink after every call"])
p("P14", "A failing sink is reported as an error and never panics or corrupts",
  "If the sink a writer writes to fails at any point, the call that hits the failure returns an error which carries the sink's I/O error, and neither later calls nor dropping the writer panic or abort. What the sink had accepted by the failure is exactly a prefix of the document a healthy sink would have received, and a call that reports success has handed over everything it wrote; sinks that accept only part of each write or are interrupted change nothing.",
  ["fault_sequences"], "every byte position at which the sink starts failing, every error kind, short writes and interrupted writes, for every sequence of objects",
  "Every test writes to a vector, which never fails.",
  ["src/xml/mod.rs", "src/osc/mod.rs"],
  [("error propagation in ensure_header, write_obj, close", "src/xml/mod.rs, src/osc/mod.rs"), ("Drop for XMLWriter / OSCWriter", "src/xml/mod.rs, src/osc/mod.rs")],
  observe=["results of write_obj/close", "bytes accepted by the sink", "panics, also while dropping"])
p("P15", "Coordinates convert between text, degrees and internal units without drift",
  "Every latitude and longitude survives conversion to degrees, to text and to JSON and back exactly, and comparison agrees with the numeric value. Text and floating-point degrees are converted to the nearest 100-nanodegree unit; anything that is not a number in range (not-a-number, infinities, values beyond the 32-bit range, non-numeric text) is an error saying which of these it is, never some other coordinate, and setting a node's position from bad values leaves its old position in place.",
  ["inputs"], "every i32 internal value, every f64/f32 and every string",
  "Doc tests convert 1.0, 1.23, -180, 600 and 'xxxx'; the 2^32 values, rounding, out-of-range and NaN are not covered.",
  ["src/lib.rs"],
  [("lat_lon_impl! from_str / try_from / degrees / Display", "src/lib.rs"), ("Node::set_lat_lon", "src/lib.rs")],
  observe=["results of the conversions"])
p("P16", "Timestamps denote the same instant in every form, and compare by instant",
  "For every instant with a year from 0000 to 9999, converting a timestamp from epoch seconds to ISO 8601 text (UTC, 'Z', whole seconds) and back, or parsing any RFC 3339 text of it with any offset, gives the same epoch second, before 1970 and after 2038 or 2106 too. Comparing two valid timestamps for order and equality, in any mixture of forms, agrees with comparing their instants. Text that is not a timestamp is refused when parsed.",
  ["inputs"], "every pair of instants in years 0000-9999, in epoch or RFC 3339 text form with any offset",
  "Ten unit tests compare seven values between 1970 and 2020; conversion to text is tested once, at 700 s.",
  ["src/lib.rs", "src/utils.rs"],
  [("epoch_to_iso / iso_to_epoch", "src/utils.rs"), ("TimestampFormat PartialOrd, PartialEq, FromStr, Display", "src/lib.rs")],
  observe=["results of the conversions and comparisons"])
p("P17", "Objects behave like independent fields plus an ordered tag map",
  "For every kind and representation of object, after any sequence of edits each getter returns the last value set and every other field is untouched. Setting a tag replaces the value of that key in place or appends it, unsetting removes only that key, and tag order is otherwise preserved; node lists and member lists are exactly the last ones set. Stripping metadata clears uid, user and changeset and nothing else, and edits to a clone never show in the original.",
  ["histories"], "every sequence of setter, tag, node-list, member-list and strip operations on nodes, ways and relations in the String, Arc and Rc representations, directly and through the any-object enums, with any keys and values",
  "No test edits an object beyond one doc test of set_lat_lon.",
  ["src/obj_types/string_types.rs", "src/obj_types/arc_types.rs", "src/obj_types/rc_types.rs", "src/lib.rs"],
  [("set_tag / unset_tag / tag", "src/obj_types/*.rs"), ("func_call_inner_get/set forwarding", "src/obj_types/*.rs"), ("strip_metadata", "src/lib.rs")],
  observe=["all getters after every operation"],
  hook="Rc objects have no public constructor: a cfg-guarded constructor makes them reachable")
p("P18", "Derived views of an object agree with its data",
  "For every object, tag count, tagged/untagged, has_tag, tag lookup and the JSON rendering of the tags agree with its tag list, and the JSON is valid whatever the strings. A way's node count and indexed access agree with its node list, it is closed exactly when it has nodes and the first equals the last, and is an area exactly when closed and not tagged area=no. The object's kind, its as_/into_/is_ conversions and the short and long type names agree with each other and convert back.",
  ["inputs"], "every object of every kind in the String, Arc and Rc representations, any strings and lists",
  "Tests check is_closed/is_area on four ways and seven type names; JSON, counts and kind conversions are untested.",
  ["src/lib.rs", "src/obj_types/string_types.rs", "src/obj_types/arc_types.rs", "src/obj_types/rc_types.rs"],
  [("OSMObjBase default methods", "src/lib.rs"), ("Way::is_closed / is_area", "src/lib.rs"), ("OSMObjectType conversions", "src/lib.rs"), ("num_tags / untagged overrides", "src/obj_types/arc_types.rs, src/obj_types/rc_types.rs")],
  observe=["results of the accessors"],
  hook="Rc objects have no public constructor: a cfg-guarded constructor makes them reachable")
p("P19", "Converting shared objects to owned ones keeps every field",
  "Converting any Arc or Rc node, way, relation or any-object value to its String counterpart yields an object of the same kind with the same id, version, visibility, changeset, timestamp, uid, user, tags in order, coordinates, node list and member list; absent fields stay absent.",
  ["inputs"], "every Arc and Rc object with distinct tag keys",
  "No test performs such a conversion.",
  ["src/obj_types/mod.rs"],
  [("From<ArcNode/ArcWay/ArcRelation/ArcOSMObj>, From<Rc...>", "src/obj_types/mod.rs")],
  observe=["getters of the source and of the result"],
  hook="Rc objects have no public constructor: a cfg-guarded constructor makes them reachable")
p("P20", "The changeset reader returns exactly the changesets of a dump",
  "For every well-formed changeset dump the changeset reader yields one changeset per changeset element, in order, with exactly the id, creation and closing times, open flag, uid, user, change and comment counts and tags the file gives, decoded per XML rules. Self-closing form, attribute order, unknown attributes, discussions and other nested elements make no difference; an absent closing time, uid or user stays absent, and no data leaks from one changeset to the next.",
  ["inputs"], "every well-formed UTF-8 changeset dump whose changesets carry the required attributes with valid values",
  "No test reads a changeset; the doc test is no_run.",
  ["src/changesets.rs"],
  [("ChangesetReader::next_changeset", "src/changesets.rs")],
  observe=["items returned by next_changeset / the iterator"])
p("P21", "The changeset tag reader returns every tagged changeset's id and tags",
  "For every well-formed changeset dump the tag reader yields, in order, one (id, tags) pair for every changeset that has tags, with all of its tags in file order and decoded per XML rules. It invents no changeset, never mixes tags of different changesets, and agrees with the full changeset reader on ids and tags.",
  ["inputs"], "every well-formed UTF-8 changeset dump (bzip2 compressed)",
  "No test runs this reader.",
  ["src/changesets.rs"],
  [("ChangesetTagReader::next_tag", "src/changesets.rs")],
  state=[dict(name="curr_id, tags", meaning="changeset being assembled", where="src/changesets.rs ChangesetTagReader")],
  observe=["items returned by the iterator"])
p("P22", "Damaged changeset dumps give errors, never panics, hangs or wrong data",
  "Whatever bytes they are given, the changeset readers neither panic nor loop forever; problems come back as errors. For a valid dump that is cut off or whose source fails at any byte, everything returned before the first error is an unchanged prefix of what the full dump holds, and a dump that ends in the middle of a changeset ends with an error, never with that changeset or a silent end. A missing or unusable id, date of creation, open flag, count, uid or tag is an error where it is, and spoils no other changeset: a caller who goes on gets all of them.",
  ["fault_sequences", "crash_points", "inputs"], "every byte string, every truncation point and every failure point of the source of every valid dump",
  "No test reads malformed or truncated changeset data.",
  ["src/changesets.rs"],
  [("event loops and end-of-file handling", "src/changesets.rs")],
  observe=["items returned", "panics", "CPU time of each call"])
p("P23", "Opening files by name or compressed gives the same objects as in memory",
  "Reading a file through any of the by-name entry points (PBF by path with either reader or positions only, XML bzip2 or uncompressed, changesets bzip2) or through a bzip2 stream gives exactly the objects that reading the uncompressed bytes from memory gives. This includes bzip2 files made of several concatenated streams; a file that does not exist is an error, and the file on disk is left untouched. What is read is the file as it was opened, even if the name is then removed or given to another one, and when a reader is gone, early or after a failure, the process holds no handle to the file.",
  ["inputs", "configurations"], "every valid input and every way to cut it into one or more bzip2 streams",
  "No test opens a file.",
  ["src/lib.rs", "src/xml/mod.rs", "src/stringpbf/mod.rs", "src/stringpbf/node_id_pos.rs", "src/arcpbf/mod.rs", "src/changesets.rs"],
  [("read_pbf, read_xml", "src/lib.rs"), ("from_filename, from_filename_bz2, from_filename_uncompressed, from_bz2_reader", "src/xml/mod.rs, src/changesets.rs, src/stringpbf/mod.rs, src/arcpbf/mod.rs")],
  observe=["objects returned", "open() results"])
p("P24", "The changeset tag export to SQLite is complete, faithful and all-or-nothing",
  "For every changeset dump the SQLite export tool creates a database with exactly one row per tagged changeset, holding its id and its tags as JSON key/value pairs in file order, and reports the number inserted. It refuses to touch a database file that already exists. If the dump is malformed, truncated or repeats an id, or the export is killed or runs out of space, it does not succeed and no partial set of rows is left in the database.",
  ["inputs", "fault_sequences"], "every dump, valid, damaged or truncated, and any pre-existing destination",
  "No test runs the tool.",
  ["src/bin/osmio-changeset-tags-to-sqlite.rs", "src/changesets.rs"],
  [("single transaction around all inserts", "src/bin/osmio-changeset-tags-to-sqlite.rs"), ("exists() check before opening", "src/bin/osmio-changeset-tags-to-sqlite.rs")],
  observe=["rows of the resulting database", "exit status", "bytes of a pre-existing file"])
p("P25", "The command-line readers account for every object of their input",
  "For every valid input the PBF speed tool reports exactly the number of objects the file holds, and the OSC debug tool prints every object of a change file once, in order, with its id and kind. Both succeed on valid input and exit with failure on a truncated, failing or missing file.",
  ["inputs", "crash_points"], "every valid PBF or OSC file, and every truncation of it inside an object or block",
  "No test runs the tools.",
  ["src/bin/osmio-pbf-read-speed.rs", "src/bin/osmio-osc-debug.rs"],
  [("main loops over objects()", "src/bin/osmio-pbf-read-speed.rs, src/bin/osmio-osc-debug.rs")],
  observe=["standard output", "exit status"])
p("P26", "Objects survive the whole path from PBF through XML or OSC unchanged",
  "Objects read from a PBF file with either reader and written with the XML or OSC writer are, when that output is read again, the objects the PBF file encodes: same order, and the same data in every field, with timestamps denoting the same instant. The two PBF readers lead to the same written document.",
  ["inputs"], "every valid PBF file whose strings consist of characters XML 1.0 can represent",
  "No test combines two formats; the old cross-format test is not compiled in.",
  ["src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/xml/mod.rs", "src/osc/mod.rs", "src/lib.rs", "src/utils.rs"],
  [("OSMObj trait as the common currency of readers and writers", "src/lib.rs"), ("epoch to ISO conversion", "src/utils.rs")],
  observe=["bytes written", "objects read back"])
p("P27", "Concurrent readers, writers and shared objects do not affect each other",
  "Readers and writers which are used at the same time (from different threads, alternately from one, or handed from thread to thread) each produce what they produce alone, and one which waits for its source or sink holds up no other. Arc objects can be sent to, shared between, read, cloned, edited as clones and dropped by several threads with every thread seeing consistent data. No such use has a data race or memory error.",
  ["schedules"], "every interleaving of threads each using its own reader or writer, and of threads sharing Arc objects",
  "All tests are single-threaded with respect to the objects they use.",
  ["src/arcpbf/mod.rs", "src/obj_types/arc_types.rs", "src/stringpbf/mod.rs", "src/xml/mod.rs", "src/osc/mod.rs"],
  [("Arc<str> for shared strings; no global state", "src/obj_types/arc_types.rs, src/arcpbf/mod.rs")],
  observe=["objects and bytes produced per thread", "ThreadSanitizer, AddressSanitizer and Miri reports"])
p("P28", "Reading and writing stream: memory does not grow with the length of the data",
  "However many objects a source holds, a reader keeps no more in memory than the part of the input it is at (the current element or PBF block) plus a constant, whether objects are taken one by one or skipped by a request for one kind, and it gives everything back when dropped. Objects are delivered as their part of the input arrives: no reader waits for more than the following element or block. Writers keep nothing of what they have written, and objects which are made, edited, converted, cloned and dropped leave nothing behind.",
  ["histories", "inputs"], "every valid input of any length, every request, readers dropped at any point, every number of objects written",
  "Tests read and write a handful of objects and never look at memory or at when data is asked for.",
  ["src/xml/mod.rs", "src/osc/mod.rs", "src/stringpbf/mod.rs", "src/stringpbf/node_id_pos.rs", "src/arcpbf/mod.rs", "src/changesets.rs", "src/obj_types"],
  [("event buffers cleared per event", "src/xml/mod.rs, src/osc/mod.rs, src/changesets.rs"), ("one decoded block buffered at a time", "src/stringpbf/mod.rs, src/arcpbf/mod.rs")],
  state=[dict(name="bytes in use", meaning="allocated and not freed by the thread which reads or writes", where="counting allocator of the harness")],
  observe=["allocations of the reading or writing thread", "calls of read() on the source and the items returned before each"])
p("P29", "Objects are equal exactly when their data is; builders build what they are told",
  "Two objects of one type are equal, with == and != in both directions, as any-object and as the kind inside, exactly if they are of the same kind and all their fields are equal: id, version, deleted, changeset, uid, user, tags, location, nodes, members, and timestamps by their instant. How they came about makes no difference: built, cloned, converted, read from either format in any layout, or edited to and fro. A builder gives exactly the fields it was told, the later call winning, nothing for the others, and an error if a required one is missing.",
  ["inputs", "histories"], "all pairs of objects whose timestamps are valid and whose tags do not differ in their order only; all sequences of builder calls",
  "Tests compare a few objects built in the same way; equality has to ignore how an object is stored for every way it can come about.",
  ["src/obj_types/string_types.rs", "src/obj_types/rc_types.rs", "src/obj_types/arc_types.rs", "src/arcpbf/mod.rs", "src/stringpbf/mod.rs", "src/xml/mod.rs", "src/changesets.rs", "src/lib.rs"],
  [("PartialEq and Builder of the object types", "src/obj_types/string_types.rs, src/obj_types/rc_types.rs, src/obj_types/arc_types.rs"), ("PartialEq of TimestampFormat", "src/lib.rs"), ("ChangesetBuilder", "src/changesets.rs")],
  observe=["results of == and !=", "results of build()"])
p("P30", "Coordinates, timestamps and object kinds survive serialization with serde",
  "A latitude, longitude, timestamp (either form) or kind of object which is serialized to JSON, as text, bytes or value, alone or within options, lists, tuples and maps, deserializes to the very same value: the same inner coordinate, the same form and content of the timestamp, the same kind. JSON which is none of these is refused or taken for a value which survives too; a whole number is never taken for another one, and nothing panics.",
  ["inputs"], "every coordinate, every timestamp (any text, any 64-bit epoch second), every kind; every JSON text",
  "No test serializes anything.",
  ["src/lib.rs"],
  [("derived Serialize and Deserialize of Lat, Lon, TimestampFormat, OSMObjectType", "src/lib.rs")],
  observe=["results of serde_json"])
p("P31", "Comparisons are lawful for all values, and sorting with them works",
  "For any timestamps (whatever text they hold), coordinates and kinds of objects, equality is reflexive, symmetric and transitive, the order is antisymmetric and transitive, equality and order agree with each other, and so do all operators. Sorting by them never panics and gives a sorted permutation. Equality of objects follows the same laws, whatever their timestamps. Coordinates are in the order of their inner values.",
  ["inputs"], "all pairs and triples of values, invalid timestamps included",
  "Tests compare a few valid timestamps; laws are about all triples, across the two forms and including text which is no timestamp.",
  ["src/lib.rs", "src/obj_types"],
  [("PartialEq, Eq and PartialOrd of TimestampFormat", "src/lib.rs"), ("derived Ord of Lat, Lon, OSMObjectType", "src/lib.rs")],
  observe=["results of ==, !=, <, <=, >, >=, partial_cmp, cmp, max, min, sort"])
p("P32", "PBF data which contradict themselves are a failure, never other or less data",
  "If an object or a group of dense nodes in a PBF file contradicts itself, reading fails there, after at most the undamaged objects before it and at least everything in earlier blocks: an object whose lists of tag keys and values, or of member ids, types and roles, differ in length; dense nodes whose ids, coordinates, metadata (where there are any) or tags are not for the same number of nodes; a tag, role or user outside the string table; a string which is not UTF-8; a missing id or coordinate, a coordinate which does not fit into the type, an unknown kind of member. No reader returns such an object with other, fewer or made-up tags, members, coordinates or metadata, or the file as if it had fewer objects. This holds for both PBF readers, for objects of that kind asked for alone, and for the node position reader as far as it reads the damaged part.",
  ["inputs"], "every PBF file with one damaged object or group among good ones, in any layout of blobs",
  "Tests read good files. How an object is put together from parallel arrays matters only when they disagree, of which there are as many ways as there are arrays.",
  ["src/stringpbf/mod.rs", "src/stringpbf/node_id_pos.rs", "src/arcpbf/mod.rs"],
  [("decode_nodes, decode_dense_nodes, decode_ways, decode_relations", "src/stringpbf/mod.rs, src/arcpbf/mod.rs"), ("decode_block_to_objs", "src/stringpbf/node_id_pos.rs"), ("decode_coord", "src/pbf/mod.rs")],
  observe=["objects returned before the failure", "end of reading (failure or end)"])
p("P33", "An unusable value in an OSM XML or OSC document never becomes another value",
  "In a well-formed OSM XML or change document, a value which cannot be read as what it should be (version, changeset or uid which is no 32-bit whole number, a coordinate which is missing, no number or out of range, a visible flag which is neither true nor false, a node reference or member without a usable ref or type, a tag without key or value) is never taken for another value. Either the reader fails at that object, after all objects before it, or it returns the object without just that value (no version, no location, not a member), with everything else in it, and all other objects, exactly as the document has them.",
  ["inputs"], "every well-formed OSM XML and osmChange document, with any number of unusable values in any objects",
  "Tests read good documents. What must not happen is a plausible value in place of a bad one, or damage to the rest of the object, for which there are as many ways as attributes and kinds of bad values.",
  ["src/xml/mod.rs", "src/osc/mod.rs", "src/lib.rs"],
  [("node_/way_/relation_xml_elements_to_osm_obj", "src/xml/mod.rs"), ("get_tags, get_nodes, get_members", "src/xml/mod.rs"), ("FromStr of Lat and Lon", "src/lib.rs")],
  observe=["objects returned", "end of reading (failure or end)"])
p("P34", "The work of reading, writing and querying is in proportion to the data",
  "The CPU time which a reader, writer or accessor needs grows in proportion to the amount of data (n, or n times its logarithm), never with its square: with many times as many objects, blocks, groups, strings, tags, node references, members, changesets, comments or unknown elements one after the other, or characters of one value, or when the source delivers its bytes in small pieces, it takes about as many times as long. This holds for the XML, OSC, PBF, node position, changeset and changeset tag readers (all objects, or one kind of them), for the XML and OSC writers, and for going through, cloning, comparing, printing, replacing all of or looking once into the tags, node references or members of one object.",
  ["inputs"], "every kind of repetition in the data, each at any size up to where memory ends",
  "Tests read a few objects. Code which is quadratic passes every test on small data, and never finishes a planet file.",
  ["src/stringpbf/mod.rs", "src/stringpbf/node_id_pos.rs", "src/arcpbf/mod.rs", "src/pbf/mod.rs", "src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs", "src/obj_types", "src/lib.rs"],
  [("next of the readers", "src/stringpbf/mod.rs, src/arcpbf/mod.rs, src/xml/mod.rs, src/osc/mod.rs"), ("next_changeset, next_tag", "src/changesets.rs"), ("write_obj", "src/xml/mod.rs, src/osc/mod.rs"), ("tags, nodes, members", "src/obj_types"), ("tags_json_string", "src/lib.rs")],
  observe=["CPU time of the thread", "number of objects returned"])
p("P35", "Objects with shared strings share them: one copy per block and for all clones",
  "When a PBF file is read with the shared-string reader, every string of a block's string table is in memory once, however many users, tag keys, tag values and member roles of that block's objects are that string; so memory for all objects of a file does not grow with the length of a string times the number of its uses. A clone of a shared (Rc or Arc) object, or of the node, way or relation in it, shares all strings with the original; changing one field or tag of the clone replaces no other string and leaves the original with its own. An object keeps only its own strings in memory: when the others and the reader are gone, so are theirs.",
  ["inputs", "histories"], "every PBF file, in every layout of blocks and groups, and every change of a clone",
  "Copies of strings are equal to them, so no test of values can tell; only memory use shows, on large data.",
  ["src/arcpbf/mod.rs", "src/obj_types/arc_types.rs", "src/obj_types/rc_types.rs"],
  [("decode_block_to_objs, decode_dense_nodes, decode_nodes, decode_ways, decode_relations", "src/arcpbf/mod.rs"), ("fields and derived Clone of the shared types", "src/obj_types/arc_types.rs, src/obj_types/rc_types.rs")],
  observe=["addresses of the strings returned", "memory in use"])
p("P36", "Results depend on the data alone, not on time zone, locale, time or history",
  "Reading, writing and converting the same data gives the same objects, the same bytes (but for the order of two or more headers), the same texts and numbers and the same endings in every process and every time: whatever the time zone, locale, environment variables, working directory, clock, umask, limits or closed standard streams of the process are, and whatever other data it has worked on before. The same holds for what the command-line tools print (but for times and rates) and for the database the export makes.",
  ["inputs", "configurations", "histories"], "all data, and all surroundings of the process",
  "Tests run in one place, where the time zone mostly is UTC, once, in a fresh process.",
  ["src/lib.rs", "src/utils.rs", "src/xml/mod.rs", "src/osc/mod.rs", "src/changesets.rs", "src/stringpbf/mod.rs", "src/arcpbf/mod.rs", "src/bin"],
  [("epoch_to_iso, iso_to_epoch", "src/utils.rs"), ("version, tags_json_string, TimestampFormat", "src/lib.rs"), ("ensure_header", "src/xml/mod.rs, src/osc/mod.rs"), ("tag popularity", "src/bin/osmio-changeset-tags-to-sqlite.rs")],
  observe=["bytes written", "objects returned", "results of conversions", "output of the tools"])
p("P37", "The traits work for any implementation, not only for the library's own types",
  "A type which implements the object traits with the required methods only gets provided methods which agree with these: counts and lookup of tags, JSON, being tagged, closed or an area, positions as numbers, kind tests; stripping metadata removes user, uid and changeset and nothing else; setting a position from numbers sets exactly it, and one which is refused changes nothing. The XML and OSC writers write such objects byte for byte like the library's own with the same data. A reader which implements next() gets iterators which give its objects once, in order, of the kind asked for, take no more from it than they give or skip, and can be dropped and taken anew at any time; its sorted assumption is what it was last told, if it keeps one. A writer's from_iter makes it, writes every object in order, closes it and gives it back; when a call fails it makes no more and does not end as if all were well.",
  ["inputs", "histories", "programs"], "every implementation which keeps to the traits' documentation, with all data and orders of calls",
  "The library's types override some provided methods and use the rest on a few values; tests have no other implementation.",
  ["src/lib.rs", "src/xml/mod.rs", "src/osc/mod.rs"],
  [("OSMObjBase, Node, Way, OSMObj: provided methods", "src/lib.rs"), ("OSMReader, OSMObjectIterator, OSMWriter::from_iter, set_header", "src/lib.rs"), ("write_obj", "src/xml/mod.rs, src/osc/mod.rs")],
  observe=["results of provided methods", "calls made on the implementation", "bytes written"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
