#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})

prop("C01", "A document survives encoding and decoding unchanged",
 "Encoding a document as text or as a binary container (to a stream or to a file) and decoding the result yields a document with the same meaning: every property of every object, in the same order, keeps its value, or the format's default where it was left unset. This covers names, indices, numbers (exactly), lists, free-form extra data, URIs and every nested object, and encoding such a document succeeds. The text has the structure and property names of the format, and spells out the indices, counts, numbers and enumeration codes that the format requires, also where they are zero.",
 ["inputs", "configurations"], "all documents built from finite numbers, valid text and legal enumeration values, whose relative URIs are in normalised spelling (no percent-escapes or backslashes, which reading resolves); text/binary, indented/compact, stream/file",
 "The tests encode a few hand-written documents and compare a handful of fields; a dropped, swapped or conditionally omitted property in any other object or combination goes unseen.",
 ["gltf.go", "encode.go", "decoder.go", "const.go"],
 [("field to key mapping with omission rules", "gltf.go struct tags; encode.go MarshalJSON methods"),
  ("default injection on decode", "encode.go UnmarshalJSON methods")])
prop("C02", "Format defaults are applied on reading and never replace an explicit value",
 "A property for which the format defines a default reads as that default when it is absent from the input, and as the written value - including an explicit zero, false or other non-default - when it is present. When encoding, a property that was left unset or equals its default reads back as the default, and any other value is written and reads back as itself; a node matrix, rotation or scale (or texture-transform scale) of all zeros counts as left unset. The value-or-default helpers return exactly that value.",
 ["inputs"], "all defaulted properties x {absent, explicit default, explicit zero, other} x all combinations within an object",
 "Tests check single properties in isolation, mostly only one direction; combinations and zero-versus-absent cases are sampled for a few objects only.",
 ["encode.go", "gltf.go", "const.go", "ext/specular/specular.go", "ext/texturetransform/transform.go", "ext/lightspunctual/lightspunctual.go"],
 [("default on decode, omission on encode", "encode.go"), ("OrDefault helpers", "gltf.go")])
prop("C03", "Enumeration codes map one-to-one between memory and the format",
 "Every legal value of every enumeration (component and element types, primitive modes, alpha, filter, wrap and interpolation modes, animation paths, buffer targets) is written as the code the format assigns to it and that code reads back as the same value. No two values share a code, an unknown element type is rejected with an error, and the human-readable name and the component and element sizes of each value are those of the format.",
 ["inputs"], "all values of all enumerations, in every object where they occur; unknown codes",
 "Tests cover some codes of some enumerations inside whole-document comparisons; the map literals are per direction and can disagree for the others.",
 ["const.go", "const_strings.go", "gltf.go"],
 [("per-direction code maps", "const.go"), ("stringer tables", "const_strings.go"), ("SizeOfElement", "gltf.go")])
prop("C04", "Binary containers are written well-formed",
 "Every binary container that is written has the magic number, version 2 and a total length equal to the number of bytes written, followed by a JSON chunk padded with spaces to a multiple of four bytes. Exactly when the first buffer has no URI, one binary chunk follows, holding precisely that buffer's declared number of bytes and zero padding to a multiple of four; nothing else is written.",
 ["inputs", "configurations"], "all documents (JSON length modulo 4, buffer length modulo 4, buffer data shorter or longer than declared, any number of buffers, indentation)",
 "The tests compare two or three golden byte strings, which fix particular residues modulo four and always consistent buffers.",
 ["encode.go", "const.go"], [("chunk header and padding arithmetic", "encode.go encodeBinary")])
prop("C05", "Containers are read by their declared structure, however the bytes arrive",
 "Decoding auto-detects text and binary input, and a well-formed binary container is read according to its declared chunk lengths: any amount of JSON-chunk padding, any bytes of the binary chunk behind those that its buffer declares, and any bytes or chunks after them leave the resulting document and buffer bytes unchanged. The result does not depend on how the input stream divides its bytes into reads.",
 ["inputs", "schedules"], "all well-formed inputs x all partitions of the byte stream into reads x all amounts of padding",
 "Tests read from in-memory readers that deliver everything at once, with the padding the encoder itself produces.",
 ["decoder.go"], [("buffered reader, limited JSON decoding, chunk header", "decoder.go decodeDocument, decodeBinaryBuffer")])
prop("C06", "Damaged or truncated input is reported as an error",
 "Decoding any byte sequence ends with a document or an error, never a panic. If the input ends before its JSON text or the declared bytes of its binary chunk buffer are complete, a referenced resource fails to open or read, or the container's chunk types or lengths contradict each other, decoding returns an error. Decoding never reports success with a binary chunk buffer that holds fewer than its declared bytes, and reserves no memory for bytes that are declared but absent.",
 ["inputs", "crash_points", "fault_sequences"], "all truncation points and single-field corruptions of valid files, null or mistyped entries, failing readers and resource file systems",
 "Tests try a few fixed bad headers; truncation at each byte, null entries and failing readers are not explored.",
 ["decoder.go", "gltf.go"], [("header validation and full reads", "decoder.go validateGLBHeader, decodeBinaryBuffer, decodeBuffer")])
prop("C07", "No write failure is swallowed",
 "If any write to the output, or any creation, write or close of an external resource, fails or accepts fewer bytes than given, then encoding (or saving) returns an error; it reports success only after every byte of the container and of every external buffer was accepted. With a healthy destination it does not fail.",
 ["fault_sequences", "crash_points"], "every write call and every byte position at which the destination may fail, once or permanently; create, write and close failures of each external buffer",
 "Tests use writers that always succeed; a fault at the n-th write is never injected.",
 ["encode.go"], [("error propagation from each write", "encode.go encodeBinary, encodeBuffer, save")])
prop("C08", "Encoding has no side effects and is repeatable",
 "Encoding a document, in any mode and whether or not it succeeds, leaves the document and all data reachable from it unchanged, at every moment, so that one document may be encoded by several goroutines at once. Encoding it again in the same mode gives identical output, whatever was encoded before.",
 ["inputs", "histories"], "all documents x sequences of encodings in mixed modes",
 "Tests never compare the document before and after encoding.",
 ["encode.go", "ext/specular/specular.go", "ext/texturetransform/transform.go"],
 [("temporary copies for defaults and embedded buffers", "encode.go marshalJSONDoc and MarshalJSON methods")])
prop("C09", "Every buffer is stored where the document says and comes back intact",
 "When a document is encoded, the first buffer without URI of a binary container goes to the binary chunk, any other buffer with data but no URI is embedded as a data URI, a buffer with a relative URI is written in full to exactly the named resource, and no other resource is touched. Decoding such a document with access to the same resources gives every buffer exactly its declared number of bytes back, unchanged and in its own place; an external resource longer than declared contributes only its first declared bytes.",
 ["inputs", "configurations"], "all sequences of buffers over {no URI, embedded, relative URI, URL} x {with data, without} x {text, binary}",
 "Tests use one or two buffers of one kind each; mixes, positions and lengths are not explored.",
 ["encode.go", "decoder.go", "gltf.go"],
 [("first-buffer rule, embedding, external write", "encode.go Encode, marshalJSONDoc, encodeBuffer"), ("buffer loading", "decoder.go Decode, decodeBuffer")])
prop("C10", "Resource access stays inside the given directory",
 "Whatever URIs a document contains - with parent references, percent-encoding, backslashes, absolute paths or mixtures - decoding opens and encoding creates only names that denote a location inside the given file system's root; for a buffer URI that would lead outside, an error is returned and nothing is opened or created for it. An absolute URL (scheme://...) is never opened or created.",
 ["inputs"], "all URI strings over the alphabet of path-relevant tokens, for reading and for writing",
 "Tests try two literal traversal strings; encoded and mixed spellings are not explored, and reading and writing are checked separately.",
 ["decoder.go", "encode.go"], [("URI clean-up then local-path validation", "decoder.go sanitizeURI, validateBufferURI; encode.go encodeBuffer")])
prop("C11", "Typed slices map to bytes exactly as the format prescribes, and back",
 "For every component and element type, writing a slice puts each component, little-endian, at the offset the format prescribes - elements a stride apart, matrices column by column with each column starting on a four-byte boundary, multi-component elements of small integers padded to four bytes - and touches no byte outside the elements. Reading takes the components from those same offsets, so reading back what was written at the same stride returns the original values, and the single-element accessors agree with the slice functions.",
 ["inputs"], "all 42 component/element type pairs and the colour types x all values x all legal strides (including zero, exact and larger) x all lengths",
 "Tests write one or two elements per type at the natural stride with small values; non-natural strides of most types and boundary values are not covered.",
 ["binary/binary.go", "binary/encode.go", "binary/unsafe.go", "gltf.go"],
 [("per-type get/put functions", "binary/binary.go, binary/unsafe.go"), ("type switches with stride", "binary/encode.go")])
prop("C12", "Binary reading and writing is bounds-safe",
 "Reading or writing a typed slice against a byte slice that is too short for its elements at the given stride returns the short-buffer error, leaving the destination untouched, instead of panicking or transferring a part. When the byte slice is long enough the operation succeeds, never accesses bytes beyond the last element and changes nothing else.",
 ["inputs"], "all types x all lengths x all strides x all byte-slice lengths around the boundary",
 "Tests check the error for one type with one length.",
 ["binary/encode.go"], [("length check before the type switch", "binary/encode.go Read, Write")])
prop("C13", "Typed slices are created and identified consistently",
 "For every component and element type and count, slice creation yields a slice of the corresponding type with exactly that many elements, and identifying that slice returns the same component type, element type and count. Creation with a reusable byte buffer gives the same type and length whatever the buffer's length, capacity or contents, and uses memory outside the buffer's capacity never; unsupported type codes give an error.",
 ["inputs"], "all 42 pairs (and invalid codes) x counts x buffer lengths and capacities",
 "Tests cover a part of the pairs with one count and one buffer size.",
 ["binary/slice.go"], [("type switches and re-slicing of the buffer", "binary/slice.go MakeSlice, MakeSliceBuffer, Type, castSlice")])
prop("C14", "Data written through the modeling helpers stays readable, unchanged, for ever",
 "Non-empty data written with any writing helper (single accessors, interleaved groups, primitive attributes, images, raw buffer views) reads back equal through the returned index, right after the call, after any number of later successful or failed writes, and after encoding and decoding the document in text or binary form. Writing never changes bytes, views or accessors that were already in the document.",
 ["histories", "inputs"], "all finite sequences of writing operations over all helper kinds, element types and lengths, starting from empty or loaded documents",
 "Tests perform one write on a fresh document and compare the resulting structure.",
 ["modeler/write.go", "modeler/read.go", "binary/encode.go"],
 [("append with padding to the last buffer", "modeler/write.go writeBufferViews, ensurePadding, lastBuffer")])
prop("C15", "Documents built with the modeling helpers have a valid memory layout",
 "After every successful writing operation all buffer views lie inside their buffer and do not overlap, each buffer's declared length equals its data length, and every accessor lies inside its view. Every accessor starts on a multiple of four bytes, and so does every element of interleaved data and of multi-component vertex data; views shared by several accessors, or holding padded vertex elements, declare the stride between elements, and the index returned by each operation is the index of the new entry.",
 ["histories"], "all finite sequences of writing operations over all helper kinds, element types and lengths",
 "Tests check absolute offsets for one or two writes; residues of earlier odd-sized writes and images are sampled once.",
 ["modeler/write.go"], [("offset, stride and padding computation", "modeler/write.go writeBufferViews, ensurePadding, WriteAccessorsInterleaved")])
prop("C16", "Modeling helpers record correct accessor metadata",
 "An accessor created by a writing helper has the component type, element type and element count of the data; normalized is set exactly for integer texture coordinates, weights and colours; positions carry the exact component-wise minimum and maximum of the data; indices views target element arrays and vertex views target vertex arrays. The attribute map returned for a primitive names exactly the non-empty attributes given, each mapped to the accessor holding its data, and wrongly typed data is refused.",
 ["inputs", "histories"], "all helper kinds x permitted data types x values (including negative zero and extreme numbers) x attribute lists in any order with empty entries",
 "Tests compare a few literal attribute lists; orders, empty entries and extreme values are not varied.",
 ["modeler/write.go"], [("per-attribute type checks and min/max", "modeler/write.go")])
prop("C17", "A failed modeling operation leaves the document unchanged",
 "If a writing helper reports an error (attribute of a wrong type, interleaved data of different lengths, image source that fails), the document is exactly as before the call: no buffer, bytes, view, accessor or image was added. Later writes then behave as if the failed call had never happened.",
 ["histories", "fault_sequences"], "all failing calls at any point of a history of writing operations",
 "Tests only check that an error is returned.",
 ["modeler/write.go"], [("validation before mutation", "modeler/write.go WriteAccessorsInterleaved, WritePrimitiveAttributes, WriteImage")])
prop("C18", "Accessors read exactly the elements they denote",
 "Reading an accessor returns count elements of its type: element i comes from buffer offset view offset + accessor offset + i x stride (the element size when the view has no stride), or is zero when there is no view, and is then replaced by the sparse value with the last matching sparse index. Raw view reading returns exactly the view's bytes.",
 ["inputs"], "all accessor types x offsets x strides x counts x sparse index types, with and without base view",
 "Tests read single accessors of selected types with one stride and one sparse example.",
 ["modeler/read.go", "binary/encode.go"],
 [("view resolution, strided read, sparse overlay", "modeler/read.go ReadAccessor, ReadBufferView")])
prop("C19", "Reading is independent of scratch memory, earlier reads and other readers",
 "The result of reading an accessor depends only on the document and the accessor: not on the length, capacity or previous contents of a caller-supplied scratch buffer, on what was read before, or on reads running at the same time. A returned result never changes because of later reads unless the caller handed its own memory in again, and reading never modifies the document.",
 ["histories", "schedules", "inputs"], "all sequences and interleavings of reads with arbitrary scratch buffers, from any number of goroutines",
 "Tests use fresh or nil buffers, one read at a time.",
 ["modeler/read.go", "binary/slice.go"],
 [("pooled scratch buffers, caller buffers reused as backing store", "modeler/read.go bufPool, uint32Pool, makeBufferOf; binary/slice.go MakeSliceBuffer")])
prop("C20", "Malformed accessors produce errors, not panics or wrong data",
 "Reading any accessor or buffer view of a malformed document - indices of views or buffers that are missing, negative or out of range, offsets, lengths, strides or counts that are negative, overflow, or reach past the view or buffer, sparse indices beyond the accessor, null entries - returns an error. It neither panics nor exhausts memory nor returns data from outside the view.",
 ["inputs"], "all combinations of out-of-range indices, offsets, lengths, strides, counts and sparse parts around and far beyond the legal limits",
 "Tests try a short list of bad documents; each field is varied in at most one way.",
 ["modeler/read.go", "binary/encode.go"], [("range checks", "modeler/read.go readBufferView, ReadBufferView, ReadAccessor")])
prop("C21", "Typed readers accept exactly the permitted types and convert values correctly",
 "Each typed reader (indices, normals, tangents, texture coordinates, weights, joints, positions, 8- and 16-bit colours, inverse bind matrices) accepts exactly the component and element types the format permits for it and returns an error for every other. The returned elements are the accessor's elements, with integers widened exactly, normalized integers divided by their maximum, 8-bit colours expanded to the full 16-bit range and 16-bit colours reduced to their most significant 8 bits, float colours in [0,1] encoded as sRGB to within one step, and a missing alpha set to opaque.",
 ["inputs"], "all 42 type pairs for each reader x all 8-bit values and sampled/boundary 16-bit, 32-bit and float values",
 "Tests use one small accessor per accepted type and one rejected type per reader.",
 ["modeler/read.go", "math.go"], [("type guards and conversion loops", "modeler/read.go Read* functions")])
prop("C22", "Extensions survive unharmed wherever they appear",
 "An extension that is not registered, or whose payload its handler rejects, keeps its payload unchanged (as JSON) through decoding and re-encoding, at every kind of object that may carry extensions; a registered extension is delivered as its handler's typed value, wherever it appears. Several extensions on one object do not influence each other, and extra data is preserved likewise.",
 ["inputs"], "all objects with an extension point x unknown, malformed and known payloads x any JSON payload (numbers as double-precision)",
 "Tests check unknown extensions at one or two objects.",
 ["encode.go", "gltf.go"], [("per-key dispatch with raw fallback", "encode.go Extensions.UnmarshalJSON"), ("extension fields", "gltf.go")])
prop("C23", "Built-in extension payloads round-trip with their defaults",
 "For each supported extension (punctual lights, specular-glossiness, texture transform, unlit) decoding a payload gives its properties, with the extension's defaults where absent, and encoding the decoded or hand-built value and decoding it again gives the same meaning, including nested textures with their own extensions and extra data. The encoded payload has the object shape the extension defines.",
 ["inputs"], "all payloads of the four extensions: every property x {absent, default, zero, other}, nested extension and extra data with arbitrary text",
 "Tests compare a few literal payloads per extension and marshal only pieces of them.",
 ["ext/lightspunctual/lightspunctual.go", "ext/specular/specular.go", "ext/texturetransform/transform.go", "ext/unlit/unlit.go"],
 [("custom marshalling of defaults", "ext/*/")])
prop("C24", "The extension registry is consistent under concurrency",
 "Decoding uses for each extension name the handler registered last, and treats a name that was never registered as unknown. Registering and decoding from many goroutines at once is free of data races and crashes, and every decode sees, for each name, a handler that was current at some moment during that decode.",
 ["schedules", "histories"], "all interleavings of registrations of several names with concurrent decodes",
 "Tests register once at start-up and decode sequentially.",
 ["gltf.go", "encode.go"], [("registry map under a read-write mutex", "gltf.go RegisterExtension, queryExtension")])
prop("C25", "Normalized integer and colour conversions are inverses",
 "Converting any 8- or 16-bit normalized integer to floating point and back returns the same integer (the most negative signed value, which like its successor denotes -1, returns that successor), and conversions from floating point give the nearest integer. Conversions to floating point are monotonic and map zero to 0, the largest integer to 1 and the smallest signed integers to -1. Colour channels (sRGB) converted to linear and back differ by at most one step, monotonically and exactly at both ends, and alpha is converted linearly.",
 ["inputs"], "all 2^8 and 2^16 integers of each kind; floats around every rounding boundary",
 "Tests check about four values per function.",
 ["math.go"], [("scaling and rounding", "math.go")])
prop("C26", "Data URIs and resource bytes are inverses",
 "Embedding a buffer's bytes and reading the document back returns the same bytes, for any content and length, and an image given as a PNG or JPEG data URI yields exactly the encoded bytes. A URI that is not such a data URI is never treated as embedded, and a malformed one gives an error rather than partial data or a panic.",
 ["inputs"], "all byte strings (every length modulo three), all prefixes and corruptions of data URIs, both image types",
 "Tests use one payload per kind.",
 ["gltf.go", "decoder.go", "const.go"], [("prefix detection and base64", "gltf.go IsEmbeddedResource, EmbeddedResource, marshalData, MarshalData")])
prop("C27", "Separate documents never influence each other",
 "Documents that come from decoding, from NewDocument or from building with the modeling helpers share no mutable memory with one another, with the input, with data handed to the helpers, with results of reading, or with the package's defaults. Changing, writing into, encoding or discarding one, and decoding or building others, before, after or at the same time, never changes another. What decoding, building and encoding produce depends only on what they are given, and decoding into a document that was decoded before gives every property that is present in the input its new value.",
 ["inputs", "histories", "schedules"], "all histories of decoding, building, writing, reading, encoding and overwriting several documents, in sequence and at the same time",
 "Tests look at one fresh document at a time; memory shared between two documents, or with a default, shows only when one of them is changed.",
 ["decoder.go", "encode.go", "gltf.go", "modeler/write.go", "modeler/read.go"], [("defaults copied into each object", "encode.go UnmarshalJSON methods"), ("data of decoded buffers", "decoder.go decodeBinaryBuffer, decodeBuffer"), ("data appended to buffers", "modeler/write.go writeBufferViews")])
prop("C28", "Every resource that is opened is closed, once, whatever happens",
 "Each file or resource that opening, saving, decoding or encoding opens or creates through the file system is closed exactly once before the call returns, whether it succeeds or fails and wherever it fails, and is not used after it was closed or after the call. Streams that the caller provides are never closed.",
 ["inputs", "fault_sequences"], "all combinations of documents with several external resources, failures of opening, examining, reading, writing and closing them, failing main streams and malformed documents",
 "Tests do not look at whether resources are closed, and failures in the midst of several resources are not injected.",
 ["decoder.go", "encode.go"], [("closing on every path", "encode.go save, encodeBuffer; decoder.go Open, decodeBuffer")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
