#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the statements live here, in one reviewable place)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Saving and loading a core 3MF model returns the same model",
  "Encoding any model built from core elements (units, language, thumbnail, metadata, metadata groups, base materials, objects of every type with meshes or components, transforms, part numbers, build items) and decoding the result yields an equal model. Vertex coordinates come back rounded to the configured float precision and transforms rounded to three decimals; every other value, including triangle property ids and indices and their object-level defaults, comes back exactly.",
  ["inputs"],"all values of every core attribute (32-bit ids and indices, finite float32 coordinates, strings of any XML-legal characters), all combinations of present and absent optional fields, all float precisions",
  "TestMarshalModel round-trips two hand-written models; property inheritance, omission of defaults and escaping depend on value combinations it never builds.",
  ["encoder.go","decoder.go","core.go","math.go","spec/utils.go","internal/xml/printer.go","internal/xml/xml.go"],
  [("attribute omission when a value equals its default","encoder.go: writeTriangles, writeObject, writeBuild"),("default inheritance while decoding","decoder.go: triangleDecoder.Start, objectDecoder"),("escaping","internal/xml/printer.go")],
  [("Triangle.PID/P1/P2/P3","property of each corner, inherited from the object when not written","core.go")],
  ["Encoder.Encode / MarshalModel","Decoder.Decode / UnmarshalModel"])

p("C02","Saving and loading material resources returns the same resources",
  "Encoding any model whose resources include texture, texture coordinate group, color group, composite materials and multiproperties resources and decoding it yields equal resources in the same order. Identifiers, indices, colors, enumerations and paths are exact and real numbers are rounded to the configured precision, and the model part that uses a texture has one relationship of the texture type to it, whatever other relationships it has. Texture content types are the valid ones (PNG or JPEG).",
  ["inputs"],"all 32-bit ids and indices, all RGBA colors, all enumeration values, all finite float32 coordinates and composite values, any list lengths",
  "The encoder test round-trips one fixed model; enumeration/optional-attribute combinations and boundary colors are not exercised.",
  ["materials/encoder.go","materials/decoder.go","materials/materials.go","spec/utils.go"],
  [("attribute omission when default","materials/encoder.go"),("child decoders","materials/decoder.go")],
  None,["MarshalModel","UnmarshalModel"])

p("C03","Saving and loading a beam lattice returns the same lattice",
  "Encoding any mesh carrying a beam lattice and decoding it yields an equal lattice: radius, minimum length, clipping mode, clipping and representation mesh ids, cap mode, every beam's indices, both radii and both caps, and every beam set's name, identifier and references. Values equal to the lattice default may be left out of the file but must still come back as the value that was saved (real numbers rounded to the configured precision). Radii are positive and do not round to zero.",
  ["inputs"],"all ids and indices, all positive finite radii that do not round to zero, relative to the lattice radius and to each other, all clip and cap mode combinations, any number of beams and sets",
  "The default-elision logic depends on equality patterns between a beam's two radii/caps and the lattice defaults; the single round-trip test only has a few of them.",
  ["beamlattice/encoder.go","beamlattice/decoder.go","beamlattice/beamlattice.go"],
  [("default elision","beamlattice/encoder.go: marshalBeams"),("default inheritance","beamlattice/decoder.go: beamDecoder.Start")],
  None,["MarshalModel","UnmarshalModel"])

p("C04","Saving and loading slice stacks returns the same slice stacks",
  "Encoding any model with slice stacks (slices or references) and objects bound to them and decoding it yields equal slice stacks and bindings: bottom and top heights, vertices, polygons, segments with their property ids and indices, references, and each object's stack id and mesh resolution. Real numbers are rounded to the configured precision; everything else is exact. A segment without a property id has no property indices.",
  ["inputs"],"all ids, indices, heights and coordinates, any number of slices, polygons and segments, with and without segment properties",
  "The encoder test round-trips one fixed stack; optional segment attributes reuse a shared attribute buffer between segments.",
  ["slices/encoder.go","slices/decoder.go","slices/slices.go"],
  [("shared attribute buffer in polygons","slices/encoder.go: marshalPolygons"),("segment defaults","slices/decoder.go: polygonSegmentDecoder.Start")],
  None,["MarshalModel","UnmarshalModel"])

p("C05","Saving and loading production attributes returns the same attributes",
  "Encoding any model carrying production extension attributes (valid UUIDs, paths) on its build, items, objects and components and decoding it yields equal UUIDs and paths on the same elements, and every item and component resolves to the object in the model part it names. An attribute that is not a valid UUID is reported as an error naming that attribute.",
  ["inputs"],"all valid UUID spellings, all XML-legal path strings, presence or absence of the attribute on each element",
  "The round-trip test uses a single set of attributes.",
  ["production/encoder.go","production/decoder.go","production/production.go","core.go"],
  [("attribute groups","production/decoder.go: NewAttrGroup, Unmarshal3MFAttr"),("path resolution","core.go: Item.ObjectPath, Component.ObjectPath")],
  None,["MarshalModel","UnmarshalModel","Item.ObjectPath","Component.ObjectPath"])

p("C06","Unsupported extension content survives a load and save unchanged",
  "Elements and attributes that belong to a declared namespace no loaded extension supports are kept when a model is decoded and written back when it is encoded, on every element that can carry them, so that decoding the re-encoded document yields the same names, values, text and nesting in the same order. Such content never changes how the surrounding core content is decoded. White space alone between the markup inside an unknown element may be dropped, and namespace declarations may be expressed with other prefixes.",
  ["inputs"],"all nestings (including an element containing a child of its own name), all text and attribute values, every extension point (attributes on the core elements with an attribute list; elements in the model, its resources and meshes), several unknown elements next to each other",
  "Tests contain one flat unknown element and one unknown attribute per carrier.",
  ["spec/unknown.go","spec/spec.go","read.go","decoder.go","encoder.go"],
  [("token accumulation","spec/unknown.go: UnknownTokensDecoder"),("element stack","read.go: decodeModelFile")],
  [("element decoder stack","which decoder receives the next token","read.go: decodeModelFile")],
  ["UnmarshalModel","MarshalModel"])

p("C07","Every encoded model is a well-formed XML document",
  "Whatever strings a model contains (names, metadata, part numbers, paths, extension attribute values), the encoder output is a well-formed XML document in which every start tag is closed by a matching end tag, each element's attribute names are distinct, and parsing it with a conforming XML parser gives back those strings. Characters that are special in XML never leak out of the value they belong to. Names a caller chooses (extension prefixes, the names of unknown elements and attributes) are legal and distinct, and enumerations are in range.",
  ["inputs"],"all strings of XML-legal characters in every text position of the model, in root and child model parts",
  "Tests use only strings without special characters.",
  ["internal/xml/printer.go","encoder.go"],
  [("attribute and text escaping","internal/xml/printer.go: WriteStart, EscapeString"),("escape suppression for numeric rows","encoder.go: SetSkipAttrEscape users")],
  None,["MarshalModel"])

p("C08","Package parts, relationships and attachments survive save and load",
  "Saving a model to a package and loading it returns the same model path, attachments (path, content type, bytes), child models and their resources, root, model and child relationships, and thumbnails; every part written is reachable from the package root through relationships of the right type and target. Adding a relationship that already exists with the same type and target does not duplicate it, and relationships to the same target with different types are all kept. Relationships saving adds by itself (textures, child models, thumbnails) are added unless already there, a thumbnail's only when its target is not related yet; relationships without an identifier get one of their own; the order of attachments is not kept. In packages made elsewhere, targets relative to what they relate are found too. Part names are normalized absolute paths, every relationship targets an attachment of the package and every attachment is the target of one.",
  ["inputs","configurations"],"all combinations of attachments, relationships and child models; all part names, relationship types and attachment bytes",
  "Package tests use mocks or fixed example files.",
  ["opc.go","encoder.go","read.go"],
  [("relationship writing","encoder.go: Encode, writeChildModels; opc.go: AddRelationship"),("part discovery","read.go: processOPC, extractCoreAttachments")],
  None,["Encoder.Encode","Decoder.Decode"])

p("C09","Decoding never panics, whatever the document contains",
  "Decoding any byte sequence as a model document, with any set of supported extensions loaded and in both strict and lenient mode, returns normally: either with a model or with an error. In particular misplaced, repeated or nested elements, attributes of a supported extension on elements it does not define, truncated documents and malformed markup never crash the decoder or make it loop.",
  ["inputs"],"all byte sequences; all element nestings over core and extension vocabularies; all attribute/element pairings",
  "Tests decode a few fixed documents; crashes depend on element/attribute combinations nobody wrote down.",
  ["read.go","decoder.go","internal/xml/xml.go","spec/spec.go","materials/decoder.go","slices/decoder.go","beamlattice/decoder.go","production/decoder.go"],
  [("element stack","read.go: decodeModelFile"),("attribute group creation","spec/spec.go: NewAttrGroup"),("tokenizer","internal/xml/xml.go: RawToken")],
  None,["UnmarshalModel","Decoder.Decode"])

p("C10","The XML tokenizer reads exactly what the document says",
  "For every input the decoder accepts, the elements, attributes and text it reports are those a conforming XML reader reports: names with their prefixes resolved to the namespaces in scope, entity and character references expanded, quoting of either kind honoured, and self-closing tags treated as a start followed by an end. Input that is not well formed (mismatched tags, unquoted or unterminated values, stray markup, bad references) is rejected with an error rather than accepted with different content. What the decoder leaves unchecked is outside: which characters names and text may have, duplicate attributes, missing space between attributes, several root elements, document types (which 3MF forbids) and encodings other than UTF-8.",
  ["inputs"],"all byte sequences up to the stated bound, in every syntactic position",
  "The custom tokenizer replaced encoding/xml for speed and has no test file of its own.",
  ["internal/xml/xml.go","read.go"],
  [("hand-written tokenizer","internal/xml/xml.go: rawToken, attrval, text, nsname"),("namespace scopes","internal/xml/xml.go: translate, pushNs")],
  None,["UnmarshalModel"])

p("C11","Attribute values are decoded exactly or reported as errors",
  "Every numeric, color, matrix, enumeration and UUID attribute read from a document either yields exactly the value its text denotes or produces an error that names the attribute and says whether it is required; out-of-range and malformed text is never silently accepted as another value. Enumerations accept exactly their specified spellings. Real numbers are those of the 3MF number type: decimal, with an optional exponent.",
  ["inputs"],"all attribute texts up to the stated length, for every typed attribute of the core, materials, slices, beam lattice and production vocabularies",
  "The decode-warning tests have one malformed text per attribute for a subset of the attributes.",
  ["decoder.go","spec/utils.go","materials/decoder.go","slices/decoder.go","beamlattice/decoder.go","production/decoder.go","uuid/uuid.go"],
  [("attribute parsing","decoder.go: *Decoder.Start"),("color and matrix parsing","spec/utils.go")],
  None,["UnmarshalModel","spec.ParseRGBA","spec.ParseMatrix"])

p("C12","Strict and lenient decoding report errors as documented",
  "In strict mode decoding stops at the first error and returns exactly that error; in lenient mode decoding always reaches the end of the document, keeps everything that was readable, and returns every error found, in document order. A syntax error of the markup ends decoding in both modes. Each reported error carries the path of element names and indices of the element it concerns.",
  ["inputs","configurations"],"all subsets and positions of malformed attributes in a document, both modes",
  "Tests check one document with errors in each mode.",
  ["read.go","errors/errors.go","errors/list.go","decoder.go"],
  [("error wrapping through the element stack","read.go: decodeModelFile"),("list flattening","errors/list.go: Append")],
  None,["Decoder.Decode with Strict","UnmarshalModel"])

p("C13","Decoding child models concurrently is race free and deterministic",
  "Loading a package with several child models gives the same model and the same kind of outcome under every interleaving of the goroutines that read them, with no two goroutines accessing the same memory without synchronisation. When any child is malformed the returned error is the genuine cause, not a cancellation side effect of another child's failure.",
  ["schedules","inputs"],"all interleavings of the child-model goroutines at synchronisation points, all combinations of well-formed and malformed children",
  "The tests run one schedule per run and assert only that some error appears.",
  ["read.go","decoder.go"],
  [("fan-out and cancellation","read.go: processNonRootModels, readChildModel")],
  [("errs","error shared between child goroutines","read.go: processNonRootModels"),("Model.Any","model-level extension elements","decoder.go: modelDecoder.Child")],
  ["Decoder.DecodeContext"])

p("C14","Cancelling the context stops decoding with the context's error",
  "If the context given to decoding is already cancelled, or becomes cancelled while decoding, decoding ends within a bounded amount of further input and returns the context's error instead of a successful result. A context that is never cancelled never affects the result.",
  ["histories","inputs"],"all points of the token stream or face stream at which the cancellation arrives, 3MF documents and STL meshes",
  "Tests cancel only before starting.",
  ["read.go","importer/stl/ascii.go","importer/stl/binary.go","importer/stl/decoder.go"],
  [("periodic context checks","read.go: decodeModelFile; importer/stl: decode")],
  None,["Decoder.DecodeContext","stl.Decoder.DecodeContext"])

p("C15","Core validation reports exactly the violated core rules",
  "Validating a model reports an error for every core rule it breaks and none for rules it satisfies: identifiers non-zero and unique, references to existing resources with indices in range, objects with exactly one of mesh or components, enough vertices and triangles, distinct in-range triangle indices, build items not of type other, metadata names, relationships and required extensions. Each error names the offending element by path and index.",
  ["inputs"],"all ids, indices, types and presence patterns of models up to the stated size",
  "Table tests fix one violation at a time with hand-picked ids; off-by-one bounds and rule interactions are not covered.",
  ["validate.go","errors/errors.go"],
  [("rule checks","validate.go: Model.Validate, Object.Validate, validateMesh, validateComponents, Resources.validate")],
  None,["Model.Validate"])

p("C16","Material validation reports exactly the violated material rules",
  "Validating material resources reports an error for every violated rule and none otherwise: ids and property lists present, texture groups referencing a texture, textures attached to the package, composites based on base materials with indices inside it, multiproperties with at most layers minus one blend methods, materials only in the first layer, at most one color group, no nested multiproperties, and every layer index inside the referenced group.",
  ["inputs"],"all reference targets and indices, including the first index past the end, for every kind of referenced group",
  "Existing tests use far-out-of-range indices and never a texture group as a layer.",
  ["materials/validate.go"],[("rule checks","materials/validate.go")],None,["Model.Validate"])

p("C17","Beam lattice validation reports exactly the violated lattice rules",
  "Validating a beam lattice reports an error for every violated rule and none otherwise: carried only by model or solid-support meshes, minimum length and radius set, clipping and representation meshes existing, earlier in the file, solid meshes without lattices, beams joining two distinct existing vertices, and beam sets referring only to existing beams.",
  ["inputs"],"all indices, ids, types and set references, including boundary values",
  "Tests use one lattice per rule with references far out of range.",
  ["beamlattice/validate.go"],[("rule checks","beamlattice/validate.go")],None,["Model.Validate"])

p("C18","Slice validation reports exactly the violated slice rules",
  "Validating slice stacks and the objects bound to them reports an error for every violated rule and none otherwise: slices or references but not both, references to another part's stack that has no references itself, strictly increasing heights not below the bottom, enough vertices, polygons and segments, closed polygons for solid objects, only planar transforms anywhere along the path from the build to the object, and the extension required when low resolution is used.",
  ["inputs"],"all heights, indices and transforms, and all component graphs (including cyclic ones) up to the stated size",
  "Tests fix one violation at a time; transform checks across parts and cycles are not covered.",
  ["slices/validate.go"],[("rule checks","slices/validate.go"),("transform walk","slices/validate.go: validateBuildTransforms, validateObjectTransforms")],None,["Model.Validate"])

p("C19","Production validation reports exactly the violated production rules",
  "Validating a model that declares the production extension reports an error for every missing or malformed UUID on the build, items, objects and components and for every component of a non-root part that refers to another part, and reports nothing when all are present and well formed. A UUID is well formed exactly when it is one of the four textual forms of RFC 4122.",
  ["inputs"],"all strings as UUIDs up to the stated bound, presence and absence on every element, root and child parts",
  "UUID tests sample a handful of strings.",
  ["production/validate.go","uuid/uuid.go"],[("rule checks","production/validate.go"),("UUID syntax","uuid/uuid.go: Validate")],None,["Model.Validate","uuid.Validate"])

p("C20","Validation and measurement terminate on every component graph",
  "Validating a model and computing its bounding box finish without exhausting the stack for every way its objects can refer to each other through components, including direct, indirect and cross-part cycles, and in a time that depends on how many objects and components there are, not on how many ways lead through them. A component that leads back to an object it is part of adds nothing to the box, which is that of the other components. Every component that makes an object contain itself is reported as a recursion error by validation.",
  ["inputs"],"all component graphs up to the stated number of objects, with and without extensions loaded",
  "Only direct self-reference is tested.",
  ["validate.go","core.go","slices/validate.go"],[("recursion check","validate.go: validateComponents"),("recursive walks","core.go: boundingBox; slices/validate.go: validateObjectTransforms")],None,["Model.Validate","Model.BoundingBox"])

p("C21","Mesh coherency accepts exactly closed, consistently oriented meshes",
  "Checking the coherency of a mesh succeeds exactly when it has at least three vertices and four triangles and every edge is used by exactly two triangles, once in each direction; otherwise the corresponding error is returned. Checking a model reports every incoherent solid mesh of the root and child parts under its own path and nothing else.",
  ["inputs","schedules"],"all triangle lists with arbitrary 32-bit indices up to the stated number of triangles, all interleavings of the per-object checks",
  "Tests check one closed box and two or three broken variants.",
  ["validate.go","math.go"],[("edge matching","validate.go: Mesh.ValidateCoherency; math.go: pairMatch")],None,["Mesh.ValidateCoherency","Model.ValidateCoherency"])

p("C22","Bounding boxes contain every point and are tight",
  "The bounding box of a mesh contains all its vertices and each of its six sides is touched by a vertex; the bounding box of a model contains every transformed vertex of every built object, following components and part paths, and is tight for every axis-aligned placement. The result does not depend on the order of vertices, components or items nor on scheduling.",
  ["inputs","schedules"],"all finite coordinates, all affine transforms (including rotations and mirrors), component trees up to the stated depth, missing references, empty meshes",
  "Tests check one or two boxes with positive axis-aligned scales.",
  ["core.go","math.go"],[("box accumulation","core.go: BoundingBox, boundingBox; math.go: extend, extendPoint, MulBox")],None,["Mesh.BoundingBox","Model.BoundingBox","Matrix.MulBox"])

p("C23","Matrix operations agree with affine transform algebra",
  "Multiplying matrices composes their transforms: applying a product to a point equals applying the factors in turn, the identity is neutral, products associate, and translating equals composing with a pure translation. Two-dimensional and three-dimensional products agree on planar points, and the textual form of a matrix parses back to the same matrix (to three decimals).",
  ["inputs"],"all integer-valued matrices and points small enough for float32 arithmetic to be exact",
  "Tests check single numeric examples.",
  ["math.go","spec/utils.go"],[("matrix product","math.go: Mul, Mul2D, Mul3D, Translate, String")],None,["Matrix methods","spec.ParseMatrix"])

p("C24","The mesh builder merges exactly coincident vertices",
  "Adding a vertex returns an index whose stored coordinates are those requested (to within the builder's one-micron merging grid), vertices farther apart than that never share an index, adding a coordinate twice returns the same index without growing the mesh, and indices already handed out stay valid. With connectivity turned off every call appends a new vertex.",
  ["inputs","histories"],"all finite coordinates, including very large and negative ones, all sequences of additions up to the stated length",
  "Tests add a few small coordinates.",
  ["core.go","math.go"],[("vertex lookup","core.go: AddVertex; math.go: newvec3IFromVec3, vectorTree")],None,["MeshBuilder.AddVertex"])

p("C25","Lookup, path and enumeration helpers answer for every model",
  "The unused identifier offered for a resource set is the smallest positive one no asset or object uses; finding resources, assets and objects by part path and identifier returns exactly the first matching entry of that part, treating an empty path and the model's own (or default) path as the root; walking assets and objects visits every one exactly once, children in path order before the root, stopping at the first error.",
  ["inputs"],"all identifiers (zero, duplicates, maximum), all path combinations, all callbacks failing at any position",
  "Tests use one or two small resource sets with distinct consecutive ids.",
  ["core.go"],[("helpers","core.go: UnusedID, FindResources, FindAsset, FindObject, WalkAssets, WalkObjects")],None,["Resources.UnusedID","Model.Find*","Model.Walk*"])

p("C26","STL import reproduces the triangles of the file or fails",
  "Importing a binary or ASCII STL adds one object and one build item whose mesh has, in order, the file's triangles with the coordinates the file states (to within the one-micron grid of the mesh builder). Truncated or malformed files end with an error and leave the model unchanged, memory use stays proportional to the input, and importing always terminates. A file whose beginning is text starting with 'solid' is ASCII, any other is binary.",
  ["inputs","fault_sequences"],"all finite vertex coordinates, all facet counts in the header, all truncation points, all read errors before the last byte needed",
  "Tests import a few fixed meshes and one truncated file.",
  ["importer/stl/binary.go","importer/stl/ascii.go","importer/stl/decoder.go"],[("format detection","importer/stl/decoder.go: isASCII"),("facet decoding","importer/stl/binary.go, ascii.go")],None,["stl.Decoder.Decode"])

p("C27","UUID generation and completion produce complete valid UUIDs",
  "A generated UUID is, for every random source, a well-formed version 4, RFC 4122 variant UUID carrying the source's remaining bits. Completing a model's UUIDs sets one on the build, every item, every object and every component of the root and child parts that lacks one, never changes one that is already set, and leaves a model that has no missing-UUID validation errors.",
  ["inputs"],"all 16-byte random blocks; all presence patterns of attribute groups and UUIDs",
  "Tests use one random block and a few models.",
  ["uuid/uuid.go","production/production.go"],[("generation","uuid/uuid.go: New"),("completion","production/production.go: SetMissingUUIDs")],None,["uuid.New","production.SetMissingUUIDs"])

p("C28","Error lists keep every error once, in order and located",
  "Appending errors to an error or list yields a flat list containing every non-nil error exactly once in order, nothing when there is nothing to report, and never drops or duplicates an error. Wrapping an error or a list prefixes the element name and index to the location of each contained error, keeps its cause reachable by unwrapping, and leaves other errors untouched.",
  ["inputs"],"all shapes of nil, plain, located and list errors, all nesting depths up to the stated bound",
  "Tests cover a few shapes.",
  ["errors/list.go","errors/errors.go"],[("flattening","errors/list.go: Append"),("locations","errors/errors.go: Wrap, WrapIndex, WrapPath")],None,["errors.Append","errors.WrapIndex","errors.WrapPath"])

p("C29","I/O failures while saving or loading are always reported",
  "If any write to the destination fails, saving returns an error; if reading any part the model needs fails or its content ends early, loading returns an error. A success result therefore means the whole model was written or read. An empty model part is an empty model; destinations honour the io.Writer contract.",
  ["fault_sequences"],"a failure at every possible read or write call, for root and child parts and attachments",
  "Tests inject a failure at one or two chosen calls.",
  ["encoder.go","opc.go","read.go","internal/xml/printer.go"],[("sticky writer errors","internal/xml/printer.go via bufio; encoder.go: Flush"),("read errors","read.go: decodeModelFile")],None,["Encoder.Encode","Decoder.Decode"])

p("C30","Namespaces, not prefixes, decide how content is decoded",
  "Two documents that differ only in the prefixes bound to the same namespaces decode to the same content, a declared extension is recorded with its namespace, prefix and whether it is required, and elements in a namespace nobody declared for the vocabulary are never decoded as core or extension content. Required extensions are exactly those listed in the document's required-extensions attribute.",
  ["inputs"],"all prefix spellings, default and prefixed namespace declarations, declaration order relative to use, any list of required prefixes",
  "All test documents use the same prefixes.",
  ["decoder.go","internal/xml/xml.go","read.go"],[("namespace translation","internal/xml/xml.go: translate"),("extension table","decoder.go: modelDecoder")],None,["UnmarshalModel"])

p("C31","Saving, validating and examining a model leave it as it is",
  "Encoding and marshalling a model, validating it, checking its coherency, computing its bounding box and finding or walking its contents change nothing of the model: neither what it holds nor what lies beyond the ends of its slices in arrays it may share with others (only the attachment streams are consumed). Doing any of it twice gives the same result twice.",
  ["inputs","histories"],"a model with every element and attribute of the supported specifications in its root and a child part, any one number of which is arbitrary; slices with spare capacity or a common backing array; every read-only operation",
  "No test compares a model with what it was before it was saved or validated.",
  ["core.go","encoder.go","validate.go"],[("relationships while saving","encoder.go: Encode, writeChildModels, AddRelationship"),("validation","validate.go: Validate")],None,["Encoder.Encode","MarshalModel","Model.Validate","Model.ValidateCoherency","Model.BoundingBox"])

p("C32","The way a document is spelled does not change the model",
  "Comments, processing instructions, white space between elements, empty elements written in either way, the kind of quotes, spacing and line breaks inside tags, the order of attributes, character references, CDATA sections, the white space around and between the values of a list, and what precedes and follows the root element do not change the model a document is loaded as. Text keeps every character however it is written, with line ends normalised.",
  ["inputs"],"every element of a document with every element and attribute of the supported specifications, in each of thirteen spellings, alone and all together; any printable character in any text or text attribute",
  "Test documents are all spelled one way.",
  ["internal/xml/xml.go","decoder.go","read.go"],[("tokenizer","internal/xml/xml.go: RawToken, text"),("text accumulation","decoder.go: metadataDecoder")],None,["UnmarshalModel","Decoder.Decode"])

p("C33","Attributes left out mean what the specifications say",
  "A triangle without properties has those of its object, a corner without a property that of the first corner; a segment's second corner has the property of its first; a beam without radii or caps has those of the lattice and its second end the radius of its first; and every other optional attribute left out means its documented default, independently of the other attributes and of what surrounds it.",
  ["inputs"],"every combination of present and absent optional attributes with arbitrary values",
  "Tests leave out few attributes, in few combinations.",
  ["decoder.go","beamlattice/decoder.go","slices/decoder.go"],[("triangle defaults","decoder.go: triangleDecoder"),("beam defaults","beamlattice/decoder.go: beamDecoder")],None,["UnmarshalModel"])

p("C34","What was loaded without errors survives being saved and loaded",
  "Any document that loads without errors, complete or not, valid or not, is saved without an error into a document that loads without errors as the same model, and saving that model again produces the same document. This holds for what the decoder accepts, not just for models built by hand: elements missing, repeated, empty, out of order or in places they do not belong, attributes missing, numbers of any value. (Left out: properties on objects without a mesh and on segments and triangles without a group, objects with both a mesh and components, textures without a content type.)",
  ["inputs","histories"],"a document with every element and attribute of the supported specifications, with any element deleted, repeated, emptied, moved behind its siblings or inside any other element, any one or two attributes deleted, any number replaced by any other; in the root and in a child part",
  "Tests save and load complete, valid models.",
  ["encoder.go","decoder.go","production/encoder.go","materials/encoder.go","slices/encoder.go","beamlattice/encoder.go"],[("root model","encoder.go: writeModel"),("extension content","*/encoder.go: Marshal3MF")],None,["UnmarshalModel","MarshalModel","Decoder.Decode","Encoder.Encode"])

p("C35","A model saved in a file is read from that file",
  "What CreateWriter and Encode put in a file is what OpenReader and Decode read from it, whatever the file held before, and models saved in different files at the same time stay apart. What does not exist, is not a file or is not a package is an error, and reading neither creates nor changes files. Close releases the file, also after a failure, and once closed nothing more is read from it, written to it, or closed.",
  ["inputs","histories","fault_sequences"],"a model with arbitrary text and up to two attachments; a file that did not exist, or held arbitrary bytes, a shorter or a longer model; missing directories, directories in place of files, truncated packages, arbitrary bytes; use after Close",
  "No test saves a file over another, or uses one that is closed.",
  ["encoder.go","read.go"],[("saving","encoder.go: CreateWriter, WriteCloser.Close"),("opening","read.go: OpenReader, ReadCloser.Close")],None,["CreateWriter","OpenReader","WriteCloser.Close","ReadCloser.Close"])

p("C36","Goroutines that work at the same time do not disturb each other",
  "Different goroutines can load, save, validate, measure, build and import models of their own at the same time, and can examine the same model at the same time - save it, validate it, find and walk what is in it, compute its boxes, matrices and coherency - without data races, and each gets what it would get alone; also the first time something is used, and while a specification is being registered.",
  ["inputs","schedules"],"any two operations out of those that look at a model, on the same model, and any two out of those that load, make, save and check models of their own, before or after they were first used; orders of their synchronisation; small models with arbitrary numbers and names",
  "Tests run one thing at a time.",
  ["encoder.go","read.go","validate.go","core.go","spec/spec.go","uuid/uuid.go","importer/stl/binary.go","internal/xml/printer.go"],[("known specifications","spec/spec.go: Register, Load"),("goroutines of their own","core.go: Model.BoundingBox; validate.go: ValidateCoherency; read.go")],None,["Encoder.Encode","Decoder.Decode","Model.Validate","Model.BoundingBox"])

p("C37","Private extensions are decoded, written and validated like supported ones",
  "A specification registered for a namespace is told exactly the attributes and elements of that namespace, complete, in document order, at every place that can have them, with the element they belong to; what it makes of them is kept there, its errors are reported at their place, and what it does not take is skipped - or, for attributes, kept as unknown - without changing how the rest is read. What it writes appears as it is, escaped, in its place, its relationships are those of the part it is in, and the rest is written as it would be without it. It validates the model, its assets and its objects once each, told their part, when and only when the model declares its namespace. What is registered last for a namespace counts.",
  ["inputs","histories"],"elements of any kind of decoder, nested, with attributes and texts, in meshes, resources and models; up to three attributes on any element that can carry them; contents with characters that need escaping; models of two parts with up to two assets and objects each and two validating extensions",
  "One test registers a mock and samples single calls.",
  ["spec/spec.go","spec/unknown.go","decoder.go","read.go","encoder.go","validate.go"],[("registry","spec/spec.go: Register, Load, LoadValidator"),("decoding","read.go: decodeModelFile; decoder.go: newAttrGroup, Child of the extension points"),("validation","validate.go: Model.Validate, Resources.validate, Object.Validate")],None,["spec.Register","Decoder.Decode","Encoder.Encode","Model.Validate"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P),"properties")
