//go:build go1.22

package lib

import (
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
)

// Attr is an attribute with a value of its own type: Get returns what it was decoded into, a
// uint32, float32, color.RGBA, go3mf.Matrix, string (a UUID), an index into Enum, or a list of those.
type Attr struct {
	Place    string // elements from the model, not included, down to the one that carries the attribute
	Name     string
	Required bool
	Enum     []string
	Get      func(m *go3mf.Model) any
}

// Chain is the elements of the place.
func (a *Attr) Chain() []string { return strings.Split(a.Place, " ") }

func asset(m *go3mf.Model) go3mf.Asset    { return m.Resources.Assets[0] }
func object(m *go3mf.Model) *go3mf.Object { return m.Resources.Objects[0] }
func triangle(m *go3mf.Model) *go3mf.Triangle {
	return &object(m).Mesh.Triangles.Triangle[0]
}
func texture(m *go3mf.Model) *materials.Texture2D { return asset(m).(*materials.Texture2D) }
func coords(m *go3mf.Model) *materials.Texture2DGroup {
	return asset(m).(*materials.Texture2DGroup)
}
func composite(m *go3mf.Model) *materials.CompositeMaterials {
	return asset(m).(*materials.CompositeMaterials)
}
func multi(m *go3mf.Model) *materials.MultiProperties { return asset(m).(*materials.MultiProperties) }
func lattice(m *go3mf.Model) *beamlattice.BeamLattice {
	return beamlattice.GetBeamLattice(object(m).Mesh)
}
func beam(m *go3mf.Model) *beamlattice.Beam   { return &lattice(m).Beams.Beam[0] }
func stack(m *go3mf.Model) *slices.SliceStack { return asset(m).(*slices.SliceStack) }
func segment(m *go3mf.Model) *slices.Segment  { return &stack(m).Slices[0].Polygons[0].Segments[0] }

var (
	unitNames    = []string{"millimeter", "micron", "centimeter", "inch", "foot", "meter"}
	objectNames  = []string{"model", "other", "support", "solidsupport", "surface"}
	textureNames = []string{"", "image/png", "image/jpeg"}
	tileNames    = []string{"wrap", "mirror", "clamp", "none"}
	filterNames  = []string{"auto", "linear", "nearest"}
	blendNames   = []string{"mix", "multiply"}
	clipNames    = []string{"none", "inside", "outside"}
	capNames     = []string{"sphere", "hemisphere", "butt"}
	resNames     = []string{"fullres", "lowres"}
)

const (
	vertexAt   = "resources object mesh vertices vertex"
	triangleAt = "resources object mesh triangles triangle"
	latticeAt  = "resources object mesh b:beamlattice"
	beamAt     = latticeAt + " b:beams b:beam"
	sliceAt    = "resources s:slicestack s:slice"
	segmentAt  = sliceAt + " s:polygon s:segment"
)

// TypedAttrs is every attribute whose text denotes something else than itself.
var TypedAttrs = []Attr{
	{"", "unit", false, unitNames, func(m *go3mf.Model) any { return int(m.Units) }},
	{"build item", "objectid", true, nil, func(m *go3mf.Model) any { return m.Build.Items[0].ObjectID }},
	{"build item", "transform", false, nil, func(m *go3mf.Model) any { return m.Build.Items[0].Transform }},
	{"resources object", "id", true, nil, func(m *go3mf.Model) any { return object(m).ID }},
	{"resources object", "pid", false, nil, func(m *go3mf.Model) any { return object(m).PID }},
	{"resources object", "pindex", false, nil, func(m *go3mf.Model) any { return object(m).PIndex }},
	{"resources object", "type", false, objectNames, func(m *go3mf.Model) any { return int(object(m).Type) }},
	{vertexAt, "x", true, nil, func(m *go3mf.Model) any { return object(m).Mesh.Vertices.Vertex[0].X() }},
	{vertexAt, "y", true, nil, func(m *go3mf.Model) any { return object(m).Mesh.Vertices.Vertex[0].Y() }},
	{vertexAt, "z", true, nil, func(m *go3mf.Model) any { return object(m).Mesh.Vertices.Vertex[0].Z() }},
	{triangleAt, "v1", true, nil, func(m *go3mf.Model) any { return triangle(m).V1 }},
	{triangleAt, "v2", true, nil, func(m *go3mf.Model) any { return triangle(m).V2 }},
	{triangleAt, "v3", true, nil, func(m *go3mf.Model) any { return triangle(m).V3 }},
	{triangleAt, "pid", false, nil, func(m *go3mf.Model) any { return triangle(m).PID }},
	{triangleAt, "p1", false, nil, func(m *go3mf.Model) any { return triangle(m).P1 }},
	{triangleAt, "p2", false, nil, func(m *go3mf.Model) any { return triangle(m).P2 }},
	{triangleAt, "p3", false, nil, func(m *go3mf.Model) any { return triangle(m).P3 }},
	{"resources object components component", "objectid", true, nil, func(m *go3mf.Model) any { return object(m).Components.Component[0].ObjectID }},
	{"resources object components component", "transform", false, nil, func(m *go3mf.Model) any { return object(m).Components.Component[0].Transform }},
	{"resources basematerials", "id", true, nil, func(m *go3mf.Model) any { return asset(m).(*go3mf.BaseMaterials).ID }},
	{"resources basematerials base", "displaycolor", true, nil, func(m *go3mf.Model) any { return asset(m).(*go3mf.BaseMaterials).Materials[0].Color }},
	{"resources u:x", "id", true, nil, func(m *go3mf.Model) any { return asset(m).Identify() }},

	{"resources m:texture2d", "id", true, nil, func(m *go3mf.Model) any { return texture(m).ID }},
	{"resources m:texture2d", "contenttype", true, textureNames, func(m *go3mf.Model) any { return int(texture(m).ContentType) }},
	{"resources m:texture2d", "tilestyleu", false, tileNames, func(m *go3mf.Model) any { return int(texture(m).TileStyleU) }},
	{"resources m:texture2d", "tilestylev", false, tileNames, func(m *go3mf.Model) any { return int(texture(m).TileStyleV) }},
	{"resources m:texture2d", "filter", false, filterNames, func(m *go3mf.Model) any { return int(texture(m).Filter) }},
	{"resources m:texture2dgroup", "id", true, nil, func(m *go3mf.Model) any { return coords(m).ID }},
	{"resources m:texture2dgroup", "texid", true, nil, func(m *go3mf.Model) any { return coords(m).TextureID }},
	{"resources m:texture2dgroup m:tex2coord", "u", true, nil, func(m *go3mf.Model) any { return coords(m).Coords[0].U() }},
	{"resources m:texture2dgroup m:tex2coord", "v", true, nil, func(m *go3mf.Model) any { return coords(m).Coords[0].V() }},
	{"resources m:colorgroup", "id", true, nil, func(m *go3mf.Model) any { return asset(m).(*materials.ColorGroup).ID }},
	{"resources m:colorgroup m:color", "color", true, nil, func(m *go3mf.Model) any { return asset(m).(*materials.ColorGroup).Colors[0] }},
	{"resources m:compositematerials", "id", true, nil, func(m *go3mf.Model) any { return composite(m).ID }},
	{"resources m:compositematerials", "matid", true, nil, func(m *go3mf.Model) any { return composite(m).MaterialID }},
	{"resources m:compositematerials", "matindices", true, nil, func(m *go3mf.Model) any { return composite(m).Indices }},
	{"resources m:compositematerials m:composite", "values", true, nil, func(m *go3mf.Model) any { return composite(m).Composites[0].Values }},
	{"resources m:multiproperties", "id", true, nil, func(m *go3mf.Model) any { return multi(m).ID }},
	{"resources m:multiproperties", "pids", true, nil, func(m *go3mf.Model) any { return multi(m).PIDs }},
	{"resources m:multiproperties", "blendmethods", false, blendNames, func(m *go3mf.Model) any {
		r := []int{}
		for _, b := range multi(m).BlendMethods {
			r = append(r, int(b))
		}
		return r
	}},
	{"resources m:multiproperties m:multi", "pindices", true, nil, func(m *go3mf.Model) any { return multi(m).Multis[0].PIndices }},

	{latticeAt, "minlength", true, nil, func(m *go3mf.Model) any { return lattice(m).MinLength }},
	{latticeAt, "precision", true, nil, func(m *go3mf.Model) any { return lattice(m).MinLength }},
	{latticeAt, "radius", true, nil, func(m *go3mf.Model) any { return lattice(m).Radius }},
	{latticeAt, "clippingmode", false, clipNames, func(m *go3mf.Model) any { return int(lattice(m).ClipMode) }},
	{latticeAt, "clipping", false, clipNames, func(m *go3mf.Model) any { return int(lattice(m).ClipMode) }},
	{latticeAt, "clippingmesh", false, nil, func(m *go3mf.Model) any { return lattice(m).ClippingMeshID }},
	{latticeAt, "representationmesh", false, nil, func(m *go3mf.Model) any { return lattice(m).RepresentationMeshID }},
	{latticeAt, "cap", false, capNames, func(m *go3mf.Model) any { return int(lattice(m).CapMode) }},
	{beamAt, "v1", true, nil, func(m *go3mf.Model) any { return beam(m).Indices[0] }},
	{beamAt, "v2", true, nil, func(m *go3mf.Model) any { return beam(m).Indices[1] }},
	{beamAt, "r1", false, nil, func(m *go3mf.Model) any { return beam(m).Radius[0] }},
	{beamAt, "r2", false, nil, func(m *go3mf.Model) any { return beam(m).Radius[1] }},
	{beamAt, "cap1", false, capNames, func(m *go3mf.Model) any { return int(beam(m).CapMode[0]) }},
	{beamAt, "cap2", false, capNames, func(m *go3mf.Model) any { return int(beam(m).CapMode[1]) }},
	{latticeAt + " b:beamsets b:beamset b:ref", "index", true, nil, func(m *go3mf.Model) any { return lattice(m).BeamSets.BeamSet[0].Refs[0] }},

	{"resources s:slicestack", "id", true, nil, func(m *go3mf.Model) any { return stack(m).ID }},
	{"resources s:slicestack", "zbottom", false, nil, func(m *go3mf.Model) any { return stack(m).BottomZ }},
	{"resources s:slicestack s:sliceref", "slicestackid", true, nil, func(m *go3mf.Model) any { return stack(m).Refs[0].SliceStackID }},
	{sliceAt, "ztop", true, nil, func(m *go3mf.Model) any { return stack(m).Slices[0].TopZ }},
	{sliceAt + " s:vertices s:vertex", "x", true, nil, func(m *go3mf.Model) any { return stack(m).Slices[0].Vertices.Vertex[0].X() }},
	{sliceAt + " s:vertices s:vertex", "y", true, nil, func(m *go3mf.Model) any { return stack(m).Slices[0].Vertices.Vertex[0].Y() }},
	{sliceAt + " s:polygon", "startv", true, nil, func(m *go3mf.Model) any { return stack(m).Slices[0].Polygons[0].StartV }},
	{segmentAt, "v2", true, nil, func(m *go3mf.Model) any { return segment(m).V2 }},
	{segmentAt, "pid", false, nil, func(m *go3mf.Model) any { return segment(m).PID }},
	{segmentAt, "p1", false, nil, func(m *go3mf.Model) any { return segment(m).P1 }},
	{segmentAt, "p2", false, nil, func(m *go3mf.Model) any { return segment(m).P2 }},
	{"resources object", "s:slicestackid", true, nil, func(m *go3mf.Model) any { return slices.GetObjectAttr(object(m)).SliceStackID }},
	{"resources object", "s:meshresolution", false, resNames, func(m *go3mf.Model) any { return int(slices.GetObjectAttr(object(m)).MeshResolution) }},

	{"build", "p:UUID", true, nil, func(m *go3mf.Model) any { return production.GetBuildAttr(&m.Build).UUID }},
	{"build item", "p:UUID", true, nil, func(m *go3mf.Model) any { return production.GetItemAttr(m.Build.Items[0]).UUID }},
	{"resources object", "p:UUID", true, nil, func(m *go3mf.Model) any { return production.GetObjectAttr(object(m)).UUID }},
	{"resources object components component", "p:UUID", true, nil, func(m *go3mf.Model) any {
		return production.GetComponentAttr(object(m).Components.Component[0]).UUID
	}},
}

// Kinds of values.
const (
	Uint = iota
	Float
	Color
	Transform
	UUID
	Enum
	Uints
	Floats
	Enums
)

// Kind is the type of the value.
func (a *Attr) Kind() int {
	switch a.Local() {
	case "x", "y", "z", "u", "v", "minlength", "precision", "radius", "r1", "r2", "zbottom", "ztop":
		return Float
	case "displaycolor", "color":
		return Color
	case "transform":
		return Transform
	case "UUID":
		return UUID
	case "matindices", "pids", "pindices":
		return Uints
	case "values":
		return Floats
	case "blendmethods":
		return Enums
	}
	if a.Enum != nil {
		return Enum
	}
	return Uint
}

// OfKind chooses an attribute of a kind.
func OfKind(kind int) *Attr {
	var r []*Attr
	for i := range TypedAttrs {
		if TypedAttrs[i].Kind() == kind {
			r = append(r, &TypedAttrs[i])
		}
	}
	return r[sym.Choice(len(r))]
}

// Doc is a document with nothing but the attribute.
func (a *Attr) Doc(v string) string { return a.DocQ(`"` + v + `"`) }

// DocQ is a document with nothing but the attribute, whose value comes with its quotes.
func (a *Attr) DocQ(v string) string {
	if a.Place == "" {
		return "<model " + Spaces + " " + a.Name + "=" + v + "/>"
	}
	c := a.Chain()
	n := len(c) - 1
	return "<model " + Spaces + ">" + Open(c[:n]) + "<" + c[n] + " " + a.Name + "=" + v + "/>" + Close(c[:n]) + "</model>"
}

// Local is the name of the attribute without its prefix.
func (a *Attr) Local() string { return a.Name[strings.IndexByte(a.Name, ':')+1:] }

// XPath is where an error about the attribute is located.
func (a *Attr) XPath() string {
	s := "/model"
	if a.Place == "" {
		return s
	}
	for _, c := range a.Chain() {
		s += "/" + Level(c)
	}
	return s
}

// Level is how the first element of its kind is located.
func Level(name string) string {
	local := name[strings.IndexByte(name, ':')+1:]
	switch name {
	case "resources", "build", "metadatagroup", "mesh", "vertices", "triangles", "components", "b:beamlattice", "b:beams", "b:beamsets", "s:vertices":
		return local
	}
	return Idx(local, 0)
}
