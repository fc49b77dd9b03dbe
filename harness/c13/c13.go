//go:build go1.22

// Package c13: child models are read at the same time.
package c13

import (
	"context"
	"strconv"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=45 thorough=700

const head = `<model xmlns="http://schemas.microsoft.com/3dmanufacturing/core/2015/02" xmlns:u="http://u" xmlns:m="http://schemas.microsoft.com/3dmanufacturing/material/2015/02" unit="inch" xml:lang="l" u:a="1">`

// docs are child models, readable or not.
var docs = []string{
	head + `<metadata name="n">v</metadata><resources><basematerials id="1"><base name="a" displaycolor="#010203"/></basematerials><object id="2"><mesh><vertices><vertex x="1" y="2" z="3"/></vertices></mesh></object></resources><build/><u:e a="b">t</u:e></model>`,
	head + `<resources><m:colorgroup id="3"><m:color color="#040506"/></m:colorgroup><u:r id="4"/></resources><build><item objectid="2"/></build><u:f/></model>`,
	head + `<resources/></model>`,
	head + `<resources><object id="x"/></resources></model>`,
	head + `<resources><basematerials id="1"><base name="a" displaycolor="#zz"/></basematerials></resources></model>`,
	head + `<resources></model>`,
	`<model`,
}

const readable = 3

var root = []byte(`<model xmlns="http://schemas.microsoft.com/3dmanufacturing/core/2015/02" xmlns:q="http://q" unit="foot"><metadata name="r">v</metadata><resources/><build/><q:e/></model>`)

var paths = func() []string {
	r := []string{"/3D/a.model", "/3D/b.model", "/3D/c.model"}
	for i := 0; i < 40; i++ {
		r = append(r, "/3D/x"+strconv.Itoa(i)+".model")
	}
	return r
}()

func pack(kinds []int) []byte {
	var files []lib.File
	for i, k := range kinds {
		files = append(files, lib.ModelFile(paths[i], []byte(docs[k])))
	}
	return lib.PackRoot(root, files...)
}

// alone is what a child gives when it is the only one.
func alone(i, k int) (*go3mf.ChildModel, error) {
	m, err := lib.Decode(lib.PackRoot(root, lib.ModelFile(paths[i], []byte(docs[k]))), true)
	return m.Childs[paths[i]], err
}

func check(n int, strict bool) {
	var kinds []int
	for i := 0; i < n; i++ {
		kinds = append(kinds, sym.Choice(len(docs)))
	}
	m, err := lib.Decode(pack(kinds), strict)
	verdict(kinds, strict, m, err)
}

func verdict(kinds []int, strict bool, m *go3mf.Model, err error) {
	sym.Assert(m != nil && len(m.Childs) == len(kinds), "there is one child for each part")
	bad := false
	genuine := false
	for i, k := range kinds {
		child, cerr := alone(i, k)
		if k < readable {
			sym.Assert(cerr == nil && (err != nil || sym.Equal(m.Childs[paths[i]], child)), "children are those read one at a time")
			continue
		}
		bad = true
		if err != nil && err.Error() == cerr.Error() {
			genuine = true
		}
	}
	sym.Assert((err != nil) == bad, "there is an error when a child cannot be read, and only then")
	if err != nil {
		sym.Assert(err != context.Canceled && genuine, "the error is that of a child that cannot be read")
		sym.Cover("error")
		return
	}
	want, werr := lib.Decode(lib.PackRoot(root), strict)
	sym.Assert(werr == nil, "the root model is readable")
	m.Childs = nil
	sym.Assert(sym.Equal(m, want), "the rest of the model is that of the root model")
	sym.Cover("read")
}

// Two children.
//
//verif:race
//verif:preempt=1
func H_two() { check(2, true) }

// Lenient decoding.
//
//verif:race
//verif:preempt=1
func H_lenient() {
	kinds := []int{sym.Choice(5), sym.Choice(5)}
	m, err := lib.Decode(pack(kinds), false)
	verdict(kinds, false, m, err)
}

// Three children.
//
//verif:race
//verif:preempt=0
func H_three() { check(3, true) }

// More schedules of two children.
//
//verif:race
//verif:preempt=2
func H_schedules() {
	kinds := [][]int{{0, 1}, {3, 5}, {0, 6}}[sym.Choice(3)]
	m, err := lib.Decode(pack(kinds), true)
	verdict(kinds, true, m, err)
}

// Many children, one of which may be unlike the others.
//
//verif:sched=first
func H_many() {
	kinds := make([]int, []int{9, 17, 33, 43}[sym.Choice(sym.Bound(3, 4))])
	for i := range kinds {
		kinds[i] = i % readable
	}
	kinds[[]int{len(kinds) - 1, 0, 8, 4}[sym.Choice(sym.Bound(2, 4))]] = sym.Choice(len(docs))
	strict := sym.Choice(2) == 0
	m, err := lib.Decode(pack(kinds), strict)
	verdict(kinds, strict, m, err)
}

//verif:tier=thorough
//verif:race
//verif:preempt=2
func H_three_schedules() {
	kinds := [][]int{{0, 1, 2}, {3, 0, 5}, {1, 6, 1}}[sym.Choice(3)]
	m, err := lib.Decode(pack(kinds), true)
	verdict(kinds, true, m, err)
}

// Children whose numbers are any texts.
//
//verif:race
//verif:preempt=1
func H_numbers() {
	var files []lib.File
	var ids []string
	bad := false
	names := []string{"id", "pindex"}
	for i := 0; i < 2; i++ {
		id := "1" + sym.StringOf(1, "0123456789-+x. ")
		ids = append(ids, id)
		bad = bad || id[1] < '0' || id[1] > '9'
		files = append(files, lib.ModelFile(paths[i], []byte(head+`<resources><object `+names[1-i]+`="1" `+names[i]+`="`+id+`"/></resources></model>`)))
	}
	m, err := lib.Decode(lib.PackRoot(root, files...), true)
	sym.Assert((err != nil) == bad, "there is an error when a child cannot be read, and only then")
	if err != nil {
		l := lib.Flatten(err)
		sym.Assert(len(l) == 1, "the error is that of a child that cannot be read")
		e, ok := l[0].Err.(*errors.ParseAttrError)
		sym.Assert(ok && (e.Name == names[0] || e.Name == names[1]), "the error is that of a child that cannot be read")
		id := ids[0]
		if e.Name == names[1] {
			id = ids[1]
		}
		sym.Assert(id[1] < '0' || id[1] > '9', "the error is that of a child that cannot be read")
		sym.Cover("error")
		return
	}
	for i, id := range ids {
		o := m.Childs[paths[i]].Resources.Objects
		n := uint32(10 + id[1] - '0')
		sym.Assert(len(o) == 1 && (i == 0 && o[0].ID == n && o[0].PIndex == 1 || i == 1 && o[0].ID == 1 && o[0].PIndex == n), "children are those read one at a time")
	}
	sym.Cover("numbers")
}

// Children that are related more than once, and a root model related to itself.
//
//verif:race
//verif:preempt=0
func H_related() {
	rels := []go3mf.Relationship{{ID: "first", Type: go3mf.RelType3DModel, Path: paths[0]}}
	for i, n := 0, 1+sym.Choice(2); i < n; i++ {
		r := go3mf.Relationship{Type: go3mf.RelType3DModel, Path: []string{paths[0], paths[1], lib.RootPath}[sym.Choice(3)]}
		r.ID = "again" + string(rune('0'+i))
		rels = append(rels, r)
	}
	kinds := []int{[]int{0, 3}[sym.Choice(2)]}
	for _, r := range rels {
		if r.Path == paths[1] {
			kinds = append(kinds[:1], 1)
		}
	}
	files := []lib.File{lib.ModelFile(lib.RootPath, root, rels...)}
	for i, k := range kinds {
		files = append(files, lib.ModelFile(paths[i], []byte(docs[k])))
	}
	strict := sym.Bool()
	m, err := lib.Decode(lib.Pack([]go3mf.Relationship{{ID: "root", Type: go3mf.RelType3DModel, Path: lib.RootPath}}, files...), strict)
	verdict(kinds, strict, m, err)
}

const exts = ` xmlns:p="http://schemas.microsoft.com/3dmanufacturing/production/2015/06" xmlns:b="http://schemas.microsoft.com/3dmanufacturing/beamlattice/2017/02" xmlns:s="http://schemas.microsoft.com/3dmanufacturing/slice/2015/07" `

// extended are child models with extensions; the number is put where # is.
var extended = []string{
	`<object id="2#" p:UUID="f47ac10b-58cc-0372-8567-0e02b2c3d4#9"><mesh><vertices><vertex x="#" y="2" z="3"/><vertex x="0" y="2" z="3"/></vertices><b:beamlattice radius="#" minlength="1" cap="hemisphere"><b:beams><b:beam v1="#" v2="0" r1="#"/></b:beams></b:beamlattice></mesh></object>`,
	`<s:slicestack id="1#" zbottom="#"><s:slice ztop="1#"><s:vertices><s:vertex x="#" y="1"/></s:vertices><s:polygon startv="#"><s:segment v2="#" pid="#" p1="#"/></s:polygon></s:slice></s:slicestack>`,
	`<m:texture2d id="3#" path="/#" contenttype="image/png" tilestyleu="mirror"/><m:texture2dgroup id="4#" texid="3#"><m:tex2coord u="#" v="1"/></m:texture2dgroup><m:compositematerials id="7" matid="5" matindices="0 #"><m:composite values="# 1"/></m:compositematerials><m:multiproperties id="8" pids="# 3" blendmethods="multiply"><m:multi pindices="# #"/></m:multiproperties>`,
}

func numbered(doc, n string) string {
	out := ""
	for _, c := range doc {
		if c == '#' {
			out += n
		} else {
			out += string(c)
		}
	}
	return out
}

// Children with the same kinds of content.
//
//verif:race
//verif:preempt=1
func H_extensions() {
	doc := extended[sym.Choice(len(extended))]
	var files []lib.File
	var parts [][]byte
	for i, n := range []string{"1", "2"} {
		parts = append(parts, []byte(head[:len(head)-1]+exts+`><resources>`+numbered(doc, n)+`</resources></model>`))
		files = append(files, lib.ModelFile(paths[i], parts[i]))
	}
	m, err := lib.Decode(lib.PackRoot(root, files...), true)
	sym.Assert(err == nil, "there is an error when a child cannot be read, and only then")
	for i, b := range parts {
		want, err := lib.Decode(lib.PackRoot(root, lib.ModelFile(paths[i], b)), true)
		sym.Assert(err == nil && sym.Equal(m.Childs[paths[i]], want.Childs[paths[i]]), "children are those read one at a time")
	}
}

// Children with one of everything.
//
//verif:race
//verif:preempt=1
func H_everything() {
	var files []lib.File
	docs := [][]byte{lib.Rich().Render(lib.Style{Decl: lib.Spaces}), lib.Rich().Render(lib.Style{Decl: lib.Spaces})}
	for i, b := range docs {
		files = append(files, lib.ModelFile(paths[i], b))
	}
	m, err := lib.Decode(lib.PackRoot(root, files...), true)
	sym.Assert(err == nil, "there is an error when a child cannot be read, and only then")
	want, err := lib.Decode(lib.PackRoot(root, files[0]), true)
	sym.Assert(err == nil, "there is an error when a child cannot be read, and only then")
	for i := range docs {
		sym.Assert(sym.Equal(m.Childs[paths[i]], want.Childs[paths[0]]), "children are those read one at a time")
	}
	sym.Cover("everything")
}
