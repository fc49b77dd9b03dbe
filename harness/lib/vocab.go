//go:build go1.22

package lib

import (
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
)

const CoreNS = "http://schemas.microsoft.com/3dmanufacturing/core/2015/02"

// Spaces declares the namespaces of Vocab: u is not supported by anything, q is not declared at all.
const Spaces = `xmlns="` + CoreNS + `" xmlns:m="` + materials.Namespace + `" xmlns:b="` + beamlattice.Namespace +
	`" xmlns:s="` + slices.Namespace + `" xmlns:p="` + production.Namespace + `" xmlns:u="http://u"`

// Vocab is every element the supported specifications define, and some they do not.
var Vocab = []string{
	"resources", "build", "item", "metadata", "metadatagroup", "object", "mesh", "vertices", "vertex", "triangles", "triangle",
	"components", "component", "basematerials", "base", "model", "x",
	"m:texture2d", "m:texture2dgroup", "m:tex2coord", "m:colorgroup", "m:color", "m:compositematerials", "m:composite", "m:multiproperties", "m:multi",
	"b:beamlattice", "b:beams", "b:beam", "b:beamsets", "b:beamset", "b:ref",
	"s:slicestack", "s:slice", "s:vertices", "s:vertex", "s:polygon", "s:segment", "s:sliceref",
	"p:x", "u:x", "u:resources", "q:x",
}

// Places are chains of elements leading to every kind of element that has children.
var Places = [][]string{
	{}, {"resources"}, {"build"}, {"build", "item"}, {"build", "item", "metadatagroup"}, {"metadata"},
	{"resources", "object"}, {"resources", "object", "mesh"}, {"resources", "object", "mesh", "vertices"}, {"resources", "object", "mesh", "triangles"},
	{"resources", "object", "components"}, {"resources", "object", "metadatagroup"}, {"resources", "basematerials"},
	{"resources", "m:texture2d"}, {"resources", "m:texture2dgroup"}, {"resources", "m:colorgroup"}, {"resources", "m:compositematerials"}, {"resources", "m:multiproperties"},
	{"resources", "object", "mesh", "b:beamlattice"}, {"resources", "object", "mesh", "b:beamlattice", "b:beams"},
	{"resources", "object", "mesh", "b:beamlattice", "b:beamsets"}, {"resources", "object", "mesh", "b:beamlattice", "b:beamsets", "b:beamset"},
	{"resources", "s:slicestack"}, {"resources", "s:slicestack", "s:slice"}, {"resources", "s:slicestack", "s:slice", "s:vertices"}, {"resources", "s:slicestack", "s:slice", "s:polygon"},
	{"u:x"}, {"resources", "u:x"}, {"resources", "object", "mesh", "u:x"}, {"resources", "x"},
}

// Leaves are the elements of Places and those that have attributes but no children, with the chain that leads to them.
var Leaves = append([][]string{
	{"resources", "object", "mesh", "vertices", "vertex"}, {"resources", "object", "mesh", "triangles", "triangle"},
	{"resources", "object", "components", "component"}, {"resources", "basematerials", "base"},
	{"resources", "m:texture2dgroup", "m:tex2coord"}, {"resources", "m:colorgroup", "m:color"}, {"resources", "m:compositematerials", "m:composite"}, {"resources", "m:multiproperties", "m:multi"},
	{"resources", "object", "mesh", "b:beamlattice", "b:beams", "b:beam"}, {"resources", "object", "mesh", "b:beamlattice", "b:beamsets", "b:beamset", "b:ref"},
	{"resources", "s:slicestack", "s:sliceref"}, {"resources", "s:slicestack", "s:slice", "s:vertices", "s:vertex"}, {"resources", "s:slicestack", "s:slice", "s:polygon", "s:segment"},
}, Places...)

// Attrs is every unqualified attribute the specifications define, and one they do not.
var Attrs = []string{
	"unit", "thumbnail", "requiredextensions", "name", "type", "preserve", "objectid", "partnumber", "transform", "id", "pid", "pindex",
	"displaycolor", "x", "y", "z", "v1", "v2", "v3", "p1", "p2", "p3", "path", "contenttype", "tilestyleu", "tilestylev", "filter", "texid",
	"u", "v", "color", "matid", "matindices", "values", "pids", "blendmethods", "pindices", "minlength", "radius", "clippingmode", "clippingmesh",
	"representationmesh", "cap", "precision", "clipping", "r1", "r2", "cap1", "cap2", "identifier", "index",
	"zbottom", "ztop", "startv", "slicestackid", "slicepath", "foo",
}

// Qualified is attributes with a namespace, supported on some elements or nowhere.
var Qualified = []string{
	"p:UUID", "p:path", "p:foo", "s:slicestackid", "s:meshresolution", "s:foo", "m:id", "b:radius", "u:foo", "q:foo", "xml:lang", "xmlns:z", "xmlns", "u:id",
}

// Open is the start tags of a chain of elements, Close their end tags.
func Open(chain []string) string {
	s := ""
	for _, c := range chain {
		s += "<" + c + ">"
	}
	return s
}

func Close(chain []string) string {
	s := ""
	for i := len(chain) - 1; i >= 0; i-- {
		s += "</" + chain[i] + ">"
	}
	return s
}
