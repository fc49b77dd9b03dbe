#!/usr/bin/env python3
"""Writes known-findings.json. Developer tool: checks only ever read that file."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = [  # id, property, harness, label, what
  ("indirect-recursion", "C20", "H_indirect", "a component that leads back to its own object through others is reported",
   "Validate reports only components that refer to their own object directly; a cycle through other objects (5 -> 12 -> 5) is not reported. slices/validate_test.go 'info' contains such a cycle and pins the complete list of errors, so the repair would need that test edited."),
  ("metadata-prefix", "C15", "H_decodedmetadata", "a loaded metadata name with a declared prefix is valid",
   "The decoder keeps the prefix of a qualified metadata name in Name.Space and the encoder writes it back, but Validate compares Name.Space with extension namespaces, so <metadata name=\"v:x\"> with xmlns:v declared is reported as ErrMetadataNamespace. validate_test.go 'metadata' pins that a Space equal to the prefix is an error and decode tests pin the prefix."),
  ("lattice-first-radius", "C17", "H_firstradius", "a beam with a first radius only is valid",
   "A beam with r1 set and r2 unset (as built in memory; the decoder always sets both) is reported as ErrLatticeBeamR2 although it satisfies the rule. beamlattice/validate_test.go 'incorrect beams' pins the report."),
  ("lattice-unclipped", "C17", "H_clipping", "a lattice that is not clipped needs no clipping mesh",
   "ErrLatticeClippedNoMesh is raised when the clip mode is none and no clipping mesh is set: the condition is inverted. beamlattice/validate_test.go 'error in child' pins the report."),
  ("lattice-clipped", "C17", "H_clipping", "clipping without a clipping mesh is reported",
   "A lattice clipped inside or outside without clipping mesh is accepted: the condition is inverted. beamlattice/validate_test.go 'object incorret type' pins that nothing is reported."),
]
F = [  # property, commit, what
  ("C25", "1cb192a", "UnusedID returned an identifier in use (or zero) when some identifiers are zero or duplicated"),
  ("C24", "afe767b", "AddVertex gave distinct vertices one index: int32 overflow beyond 2147 and float32 division for large coordinates"),
  ("C27", "8804a70", "SetMissingUUIDs left a build attribute without UUID"),
  ("C22", "eb06841", "BoundingBox looked up nested components in the wrong part"),
  ("C22", "836caca", "BoundingBox dropped boxes at the origin and returned an inverted box when nothing is built"),
  ("C20", "fb712ae", "BoundingBox overflowed the stack on recursive components"),
  ("C22", "09278d7", "MulBox transformed two corners only, so rotated boxes lost points"),
  ("C20", "50c0535", "slice validation overflowed the stack on recursive components"),
  ("C18", "50c0535", "slice validation missed non planar transforms of outer components and of items of other parts"),
  ("C15", "b92323d", "Validate never looked at the metadata groups of objects"),
  ("C19", "ed84e35", "38 characters with any first and last character counted as a well formed UUID"),
  ("C16", "253bb4c", "indices equal to the size of the group were accepted, and every non zero index into a texture coordinate group was reported"),
  ("C17", "919e4fb", "beam set references were compared with the size of the set instead of the number of beams"),
  ("C18", "44af306", "slice stacks without identifier were accepted"),
  ("C17", "4fc7f21", "beams with two different radii were reported and a second radius without a first one was not"),
  ("C09", "df6db12", "ignored or unknown elements nested in one of the same name closed it early, lost content or made the decoder panic"),
  ("C06", "0a76aab", "the text of unknown elements aliased the tokenizer buffer and changed when the next token was read"),
  ("C09", "9df1722", "an attribute of a loaded extension on an element it does not extend made the decoder panic"),
  ("C09", "35bc054", "a beam lattice inside resources made the decoder panic"),
  ("C13", "4500902", "extension elements of child models were appended to the root model by concurrent goroutines"),
  ("C08", "67d928b", "metadata prefixes of child models were never resolved"),
  ("C13", "cda71d0", "the error of a child model was stored without synchronisation and overwritten by the cancellation it causes"),
  ("C14", "5d3b657", "a context cancelled before the package is read or near the end of a part was not reported"),
  ("C13", "13ce795", "a child model related twice was decoded twice, concurrently, into the same model"),
  ("C29", "1f6323c", "attachments that could not be read were left out silently"),
  ("C29", "dcb717c", "a read error found while skipping spaces was forgotten"),
  ("C10", "9543e91", "</b:x> closed <a:x> when both prefixes name the same space"),
  ("C10", "1a149b6", "references to surrogates and control characters were accepted"),
  ("C06", "9df1722", "only the first extension element of an extension point was encoded"),
  ("C07", "3436456", "undeclared or locally declared name spaces gave malformed documents"),
  ("C07", "4dbf852", "extension attributes of triangles were not escaped and leaked into the following triangles"),
  ("C29", "04807fc", "opening a broken package with a custom decompressor panicked"),
  ("C03", "2fa5859", "a second radius equal to the lattice radius was lost when the first one differs"),
  ("C12", "8e4e7d0", "errors in slice segments carried the index of the polygon"),
  ("C06", "b466288", "attributes of other extensions were read as slice attributes"),
  ("C11", "1181ce7", "unknown texture types, tile styles, filters, blend methods and beam caps were read as defaults"),
  ("C10", "8cf8f10", "text of a metadata element interrupted by a processing instruction was lost"),
  ("C26", "4e3c99f", "STL files of less than 300 bytes were rejected and read errors made the importer loop forever"),
  ("C26", "2ff83fb", "binary STL import reserved memory for whatever face count the file claims"),
  ("C26", "2e84ba5", "malformed coordinates and facets of ASCII STL files were accepted"),
  ("C29", "0726332", "errors of extensions failing to encode themselves were ignored"),
  ("C06", "130fef6", "metadata groups with extension attributes only were not encoded"),
  ("C06", "f1fe304", "text inside unknown elements was lost when decoding"),
  ("C11", "9df1722", "1_2, 0x1p4, nan and inf were accepted as numbers"),
  ("C26", "f9e5fea", "a binary STL file whose header starts with solid was read as an empty ASCII one, or not at all; any file starting with solid alone was imported as an empty mesh"),
  ("C14", "a8a553b", "a context already over, or ending while a small STL mesh is read, was ignored"),
  ("C08", "4cdc76b", "a texture or child model whose part was already related under another type was not related with its own type, so it was lost or unreachable in the saved package"),
  ("C02", "4cdc76b", "a texture or child model whose part was already related under another type was not related with its own type, so it was lost or unreachable in the saved package"),
  ("C31", "fbfeef9", "saving a model with child parts that have objects with thumbnails wrote the new relationships beyond the end of the slice of relationships of the child, over those of whatever shares its backing array"),
  ("C32", "0481e39", "a document with a comment or a CDATA section anywhere was rejected as a syntax error"),
  ("C34", "e62a6f9", "an item or component with a path and no UUID was saved with an empty UUID, which is an error when loading"),
  ("C20", "b3e1734", "the bounding box of an object took a time exponential in the depth of its components"),
  ("C08", "2b7a30f", "parts related by relative targets with dot segments (../b.png) were silently left out"),
]
out = [dict(id=i, property=p, harness=h, label=l, what=w) for i, p, h, l, w in K]
out += [dict(property=p, fixed="fixed: property=%s %s %s" % (p, c, w)) for p, c, w in F]
json.dump(out, open(os.path.join(here, "known-findings.json"), "w"), indent=1)
open(os.path.join(here, "known-findings.json"), "a").write("\n")
