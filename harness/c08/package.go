//go:build go1.22

// Package c08: parts, relationships and attachments come back as they were saved.
package c08

import (
	"bytes"
	"io"
	"strconv"

	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/zzverif/lib"
	"github.com/qmuntal/opc"
)

//verif:budget quick=50 thorough=600

// file is an attachment, whose content can be read more than once.
type file struct {
	path, ctype string
	data        []byte
}

func attach(fs ...file) (r []go3mf.Attachment) {
	for _, f := range fs {
		r = append(r, go3mf.Attachment{Path: f.path, ContentType: f.ctype, Stream: bytes.NewReader(f.data)})
	}
	return
}

// attached asserts that the attachments are the given files, in whatever order.
func attached(m *go3mf.Model, fs ...file) {
	sym.Assert(len(m.Attachments) == len(fs), "there is an attachment for each file")
	for _, f := range fs {
		n := 0
		for _, a := range m.Attachments {
			if a.Path != f.path {
				continue
			}
			n++
			sym.Assert(a.ContentType == f.ctype, "an attachment has the type of its file")
			s, ok := a.Stream.(io.Seeker)
			var b []byte
			var err error
			if ok {
				s.Seek(0, 0)
			}
			b, err = io.ReadAll(a.Stream)
			sym.Assert(err == nil && bytes.Equal(b, f.data), "an attachment has the content of its file")
		}
		sym.Assert(n == 1, "there is one attachment for each file")
	}
}

type rel = go3mf.Relationship

// related asserts that some relationships are the given ones and no others; those that have no
// identifier get one of their own.
func related(got []rel, want ...rel) {
	sym.Assert(len(got) == len(want), "there are as many relationships as there were")
	for i, w := range want {
		n := 0
		for _, g := range got {
			if g.Type == w.Type && g.Path == w.Path && (w.ID == "" || g.ID == w.ID) {
				n++
			}
		}
		sym.Assert(n == 1, "a relationship comes back")
		if i < len(got) {
			for _, o := range got[:i] {
				sym.Assert(got[i].ID != "" && got[i].ID != o.ID, "relationships have identifiers of their own")
			}
		}
	}
}

func save(m *go3mf.Model) []byte {
	pkg, err := lib.Encode(m)
	sym.Assert(err == nil, "the model is saved")
	return pkg
}

func load(pkg []byte) *go3mf.Model {
	m, err := lib.Decode(pkg, true)
	sym.Assert(err == nil, "the saved model loads")
	return m
}

const (
	png  = "image/png"
	typ1 = "http://example.com/1"
	typ2 = "http://example.com/2"
)

// Attachments: any content, of any type.
//
//verif:sched=first
func H_content() {
	a := file{"/Thumbnails/a.png", []string{png, "image/jpeg", "text/plain", "application/xml"}[sym.Choice(4)], sym.Bytes(sym.Choice(sym.Bound(4, 6)))}
	b := file{"/b.png", png, sym.Bytes(sym.Choice(2))}
	m := &go3mf.Model{Path: lib.RootPath, Attachments: attach(a, b)}
	m.Relationships = []rel{{ID: "x", Type: typ1, Path: a.path}}
	m.RootRelationships = []rel{{ID: "y", Type: typ1, Path: b.path}}
	got := load(save(m))
	attached(got, a, b)
	related(got.Relationships, m.Relationships...)
	related(got.RootRelationships, m.RootRelationships...)
	sym.Assert(got.Path == m.Path, "the path of the model is that which was saved")
	sym.Cover("content")
}

// Contents as long as the buffers in between.
//
//verif:sched=first
func H_large() {
	a := file{"/a.bin", "application/octet-stream", bytes.Repeat([]byte{1, 2, 3}, []int{200, 1400, 11000}[sym.Choice(3)])}
	for i := range a.data {
		if i%101 == 0 {
			a.data[i] = byte(i / 101)
		}
	}
	a.data[len(a.data)-1] = sym.Byte()
	m := &go3mf.Model{Attachments: attach(a), Relationships: []rel{{ID: "x", Type: typ1, Path: a.path}}}
	attached(load(save(m)), a)
	sym.Cover("large")
}

// Any path and any type of relationship. What names a part is a path of plain characters.
//
//verif:sched=first
func H_names() {
	const plain = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~!$&'()*+,;=:@"
	n := sym.StringOf(sym.Bound(1, 2), plain)
	a := file{"/" + n + "/x.png", png, []byte{1}}
	b := file{"/3D/y" + n + "z", png, []byte{2}}
	m := &go3mf.Model{Path: "/r" + n + "/m.model", Attachments: attach(a, b)}
	m.Relationships = []rel{{ID: "x", Type: typ1 + lib.OptText(1), Path: a.path}}
	m.RootRelationships = []rel{{Type: typ1, Path: b.path}}
	got := load(save(m))
	sym.Assert(got.Path == m.Path, "the path of the model is that which was saved")
	attached(got, a, b)
	related(got.Relationships, m.Relationships...)
	related(got.RootRelationships, m.RootRelationships...)
	sym.Cover("names")
}

// Parts whose paths are like each other.
//
//verif:sched=first
func H_similar() {
	paths := []string{"/b.png", "/a/b.png", "/b.png.png", "/3D/b.png", "/3D/a/b.png", "/b", "/a/b", "/b.pn", "/3D/b.model.png", "/xb.png", "/3D/b.png/c.png"}
	pick := func(n int) string { return paths[sym.Choice(n)] }
	a := file{pick(sym.Bound(6, len(paths))), png, []byte{1, 1}}
	b := file{pick(len(paths)), png, []byte{2}}
	sym.Assume(a.path != b.path)
	sym.Assume(!bytes.HasPrefix([]byte(a.path), []byte(b.path+"/")) && !bytes.HasPrefix([]byte(b.path), []byte(a.path+"/"))) // not allowed in packages
	m := &go3mf.Model{Path: lib.RootPath, Attachments: attach(a, b)}
	ra, rb := rel{ID: "x", Type: typ1, Path: a.path}, rel{ID: "y", Type: typ1, Path: b.path}
	m.Childs = map[string]*go3mf.ChildModel{}
	names := []string{"/3D/c.model", "/c.model", "/3D/c.model.model", "/3D/3D/c.model"}
	for i, n := 0, 2; i < n; i++ {
		m.Childs[names[sym.Choice(sym.Bound(2, 4))]] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{{ID: uint32(10 + i), Mesh: lib.Solid()}}}}
	}
	child := ""
	for _, n := range names {
		if m.Childs[n] != nil {
			child = n
		}
	}
	roots, rels := []rel(nil), []rel(nil) // those that are added
	thumb := func(i int, path string) {
		m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: uint32(20 + i), Mesh: lib.Solid(), Thumbnail: path})
		rels = append(rels, rel{Type: go3mf.RelTypeThumbnail, Path: path})
	}
	texture := func(i int, path string) {
		m.Resources.Assets = append(m.Resources.Assets, &materials.Texture2D{ID: uint32(30 + i), Path: path, ContentType: materials.TextureTypePNG})
		rels = append(rels, rel{Type: materials.RelTypeTexture3D, Path: path})
	}
	how := sym.Choice(7)
	if how >= 3 {
		m.Extensions = []go3mf.Extension{materials.DefaultExtension}
	}
	switch how {
	case 3:
		thumb(0, a.path)
		thumb(1, b.path)
	case 4:
		texture(0, a.path)
		texture(1, b.path)
	case 5:
		texture(0, a.path)
		thumb(1, b.path)
	case 6:
		m.Relationships = []rel{ra}
		m.Thumbnail = b.path
		texture(0, b.path)
		roots = []rel{{Type: go3mf.RelTypeThumbnail, Path: b.path}}
	case 0:
		m.Relationships = []rel{ra, rb}
	case 1:
		m.Relationships = []rel{ra}
		m.RootRelationships = []rel{rb}
	case 2:
		m.RootRelationships = []rel{ra}
		m.Childs[child].Relationships = []rel{rb}
	}
	got := load(save(m))
	attached(got, a, b)
	related(got.Relationships, append(rels, m.Relationships...)...)
	related(got.RootRelationships, append(roots, m.RootRelationships...)...)
	sym.Assert(sym.Equal(got.Resources, m.Resources), "the resources are those saved")
	sym.Assert(len(got.Childs) == len(m.Childs), "there is a child model for each one")
	for _, n := range names {
		if c := m.Childs[n]; c != nil {
			sym.Assert(got.Childs[n] != nil, "the child model is loaded")
			related(got.Childs[n].Relationships, c.Relationships...)
			sym.Assert(sym.Equal(got.Childs[n].Resources, c.Resources), "the resources of the child are those saved")
		}
	}
	sym.Cover("similar")
}

// kinds of relationship.
func typ() string {
	return []string{typ1, typ2, go3mf.RelTypeThumbnail, materials.RelTypeTexture3D, go3mf.RelTypePrintTicket}[sym.Choice(5)]
}

// Relationships of the same part to the same target: those of different types are all kept, the
// others once.
//
//verif:sched=first
func H_duplicates() {
	a, b := file{"/3D/a.png", png, []byte{1}}, file{"/b.png", png, []byte{2}}
	m := &go3mf.Model{Path: lib.RootPath, Attachments: attach(a, b)}
	var rs, want []rel
	used := map[string]bool{}
	for i, n := 0, 1+sym.Choice(sym.Bound(2, 3)); i < n; i++ {
		r := rel{Path: []string{a.path, b.path}[sym.Choice(2)], Type: []string{typ1, typ2, go3mf.RelTypeThumbnail}[sym.Choice(3)]}
		if sym.Choice(2) == 0 {
			r.ID = []string{"rId0", "rId1", "x"}[i%3]
		}
		rs = append(rs, r)
		dup := false
		for _, w := range want {
			dup = dup || w.Path == r.Path && w.Type == r.Type
		}
		if !dup {
			want = append(want, r)
			used[r.Path] = true
		}
	}
	var fs []file
	for _, f := range []file{a, b} {
		if used[f.path] {
			fs = append(fs, f)
		}
	}
	where := sym.Choice(3)
	switch where {
	case 0:
		m.Relationships = rs
	case 1:
		m.RootRelationships = rs
	case 2:
		m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": {Relationships: rs}}
	}
	got := load(save(m))
	switch where {
	case 0:
		related(got.Relationships, want...)
	case 1:
		related(got.RootRelationships, want...)
	case 2:
		sym.Assert(got.Childs["/3D/c.model"] != nil, "the child model is loaded")
		related(got.Childs["/3D/c.model"].Relationships, want...)
	}
	attached(got, fs...)
	sym.Cover("duplicates")
}

// Relationships of every part, to attachments some of which they share.
//
//verif:sched=first
func H_parts() {
	fs := []file{{"/a.png", png, []byte{sym.Byte()}}, {"/3D/b.png", png, []byte{2, 2}}, {"/Other/c.txt", "text/plain", nil}}
	m := &go3mf.Model{Path: []string{"", "/x.model", "/3D/3dmodel.model", "/deep/down/y.model"}[sym.Choice(sym.Bound(2, 4))], Attachments: attach(fs...)}
	used := make([]bool, len(fs))
	pick := func() []rel {
		k := sym.Choice(len(fs) + 1)
		if k == len(fs) {
			return nil
		}
		used[k] = true
		return []rel{{ID: "x", Type: typ1, Path: fs[k].path}, {Type: go3mf.RelTypePrintTicket, Path: fs[k].path}}
	}
	m.RootRelationships = pick()
	m.Relationships = pick()
	m.Childs = map[string]*go3mf.ChildModel{}
	paths := []string{"/3D/c.model", "/3D/Other/d.model"}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		c := &go3mf.ChildModel{Relationships: pick()}
		c.Resources.Objects = []*go3mf.Object{{ID: uint32(10 + i), Mesh: lib.Solid()}}
		m.Childs[paths[i]] = c
	}
	var kept []go3mf.Attachment
	var want []file
	for i := range fs {
		if used[i] {
			kept = append(kept, m.Attachments[i])
			want = append(want, fs[i])
		}
	}
	m.Attachments = kept
	got := load(save(m))
	sym.Assert(got.Path == m.PathOrDefault(), "the path of the model is that which was saved")
	attached(got, want...)
	related(got.RootRelationships, m.RootRelationships...)
	related(got.Relationships, m.Relationships...)
	sym.Assert(len(got.Childs) == len(m.Childs), "there is a child model for each one")
	for _, p := range paths[:len(m.Childs)] {
		c := m.Childs[p]
		sym.Assert(got.Childs[p] != nil, "the child model is loaded")
		related(got.Childs[p].Relationships, c.Relationships...)
		sym.Assert(sym.Equal(got.Childs[p].Resources, c.Resources), "the resources of the child are those saved")
	}
	sym.Cover("parts")
}

// Child models, wherever they are.
//
//verif:sched=first
func H_children() {
	sym.MapOrder(4)
	m := &go3mf.Model{Path: []string{"/3D/3dmodel.model", "/m.model", "/3D/sub/m.model"}[sym.Choice(3)]}
	paths := []string{"/3D/a.model", "/b.model", "/3D/sub/c.model", "/Other/d.model"}
	m.Childs = map[string]*go3mf.ChildModel{}
	kind := sym.Choice(2)
	for i, n := 0, sym.Choice(sym.Bound(3, 4)+1); i < n; i++ {
		c := new(go3mf.ChildModel)
		if i%2 == kind {
			c.Resources.Objects = []*go3mf.Object{{ID: sym.Uint32(), Name: paths[i], Mesh: lib.Solid()}}
		} else {
			c.Resources.Assets = []go3mf.Asset{lib.Base(sym.Uint32(), 1)}
		}
		m.Childs[paths[i]] = c
	}
	m.Resources.Assets = []go3mf.Asset{lib.Base(sym.Uint32(), 1)}
	// a relationship to a child, which is already there
	if len(m.Childs) > 0 && sym.Choice(2) == 0 {
		m.Relationships = []rel{{ID: "x", Type: go3mf.RelType3DModel, Path: paths[0]}}
	}
	got := load(save(m))
	sym.Assert(got.Path == m.Path, "the path of the model is that which was saved")
	sym.Assert(sym.Equal(got.Resources, m.Resources), "the resources are those saved")
	sym.Assert(len(got.Childs) == len(m.Childs), "there is a child model for each one")
	for _, p := range paths[:len(m.Childs)] {
		c := m.Childs[p]
		sym.Assert(got.Childs[p] != nil, "the child model is loaded")
		sym.Assert(sym.Equal(got.Childs[p].Resources, c.Resources), "the resources of the child are those saved")
	}
	sym.Assert(len(got.Attachments) == 0 && len(got.Relationships) == 0 && len(got.RootRelationships) == 0, "models are neither attachments nor other relationships")
	sym.Cover("children")
}

// thumbnail is one of the files, or none.
func thumbnail(fs []file, used []bool) string {
	k := sym.Choice(len(fs) + 1)
	if k == len(fs) {
		return ""
	}
	used[k] = true
	return fs[k].path
}

// Thumbnails of the package and of objects, which are related to what they are a thumbnail of.
//
//verif:sched=first
func H_thumbnails() {
	fs := []file{{"/a.png", png, []byte{1}}, {"/3D/b.png", png, []byte{2}}}
	used := make([]bool, 2)
	m := &go3mf.Model{Path: lib.RootPath}
	m.Thumbnail = thumbnail(fs, used)
	o, q, c := &go3mf.Object{ID: 1, Mesh: lib.Solid()}, &go3mf.Object{ID: 2, Mesh: lib.Solid()}, &go3mf.Object{ID: 1, Mesh: lib.Solid()}
	o.Thumbnail, q.Thumbnail, c.Thumbnail = thumbnail(fs, used), thumbnail(fs, used), thumbnail(fs, used)
	m.Resources.Objects = []*go3mf.Object{o, q}
	child := new(go3mf.ChildModel)
	child.Resources.Objects = []*go3mf.Object{c}
	m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": child}
	// some are there from the start
	switch sym.Choice(4) {
	case 0:
		m.Relationships = []rel{{ID: "x", Type: go3mf.RelTypeThumbnail, Path: fs[0].path}}
		used[0] = true
	case 1:
		child.Relationships = []rel{{ID: "x", Type: go3mf.RelTypeThumbnail, Path: fs[0].path}}
		used[0] = true
	case 2:
		m.RootRelationships = []rel{{ID: "x", Type: go3mf.RelTypeThumbnail, Path: fs[0].path}}
		used[0] = true
	}
	var want []file
	for i := range fs {
		if used[i] {
			want = append(want, fs[i])
		}
	}
	m.Attachments = attach(want...)
	pkg := save(m)
	got := load(pkg)
	attached(got, want...)
	sym.Assert(got.Thumbnail == m.Thumbnail, "the thumbnail is that which was saved")
	sym.Assert(sym.Equal(got.Resources, m.Resources), "the resources are those saved")
	sym.Assert(len(got.Childs) == 1 && got.Childs["/3D/c.model"] != nil, "the child model is loaded")
	sym.Assert(sym.Equal(got.Childs["/3D/c.model"].Resources, child.Resources), "the resources of the child are those saved")
	check := func(got, had []rel, thumbs ...string) {
		want := append([]rel(nil), had...)
	next:
		for _, t := range thumbs {
			for _, w := range want {
				if t == w.Path {
					continue next
				}
			}
			if t != "" {
				want = append(want, rel{Type: go3mf.RelTypeThumbnail, Path: t})
			}
		}
		related(got, want...)
	}
	check(got.RootRelationships, m.RootRelationships, m.Thumbnail)
	check(got.Relationships, m.Relationships, o.Thumbnail, q.Thumbnail)
	check(got.Childs["/3D/c.model"].Relationships, child.Relationships, c.Thumbnail)
	sym.Cover("thumbnails")
}

// Every part of a package can be reached from it.
//
//verif:sched=first
func H_reachable() {
	m := &go3mf.Model{Path: []string{"", "/m.model", "/3D/sub/m.model"}[sym.Choice(sym.Bound(2, 3))]}
	fs := []file{{"/3D/a.png", png, []byte{1}}, {"/b.png", png, []byte{2}}, {"/3D/c.png", png, []byte{3}}}
	m.Attachments = attach(fs...)
	// the first is a texture of the root or of a child, the second is a thumbnail, the last one is
	// related by the model
	tex := &materials.Texture2D{ID: 1, Path: fs[0].path, ContentType: materials.TextureTypePNG}
	m.Extensions = []go3mf.Extension{materials.DefaultExtension}
	child := new(go3mf.ChildModel)
	child.Resources.Objects = []*go3mf.Object{{ID: 2, Mesh: lib.Solid()}}
	m.Childs = map[string]*go3mf.ChildModel{"/3D/a.model": child, "/3D/b.model": {}}
	user := sym.Choice(2)
	if user == 0 {
		m.Resources.Assets = []go3mf.Asset{tex}
	} else {
		child.Resources.Assets = []go3mf.Asset{tex}
	}
	switch sym.Choice(3) {
	case 0:
		m.Thumbnail = fs[1].path
	case 1:
		child.Resources.Objects[0].Thumbnail = fs[1].path
	case 2:
		m.Resources.Objects = []*go3mf.Object{{ID: 2, Mesh: lib.Solid(), Thumbnail: fs[1].path}}
	}
	last := rel{ID: "x", Type: typ(), Path: fs[2].path}
	switch sym.Choice(4) {
	case 0:
		m.Relationships = []rel{last}
	case 1:
		m.RootRelationships = []rel{last}
	case 2:
		child.Relationships = []rel{last}
	case 3:
		// one that has to do with the texture
		if user == 0 {
			m.Relationships = []rel{last, {Type: typ(), Path: fs[0].path}}
		} else {
			child.Relationships = []rel{last, {Type: typ(), Path: fs[0].path}}
		}
	}
	pkg := save(m)
	r, err := opc.NewReader(bytes.NewReader(pkg), int64(len(pkg)))
	sym.Assert(err == nil, "the package is read")
	parts := map[string][]*opc.Relationship{}
	for _, f := range r.Files {
		parts[f.Name] = f.Relationships
	}
	sym.Assert(len(parts) == 6, "there is a part for each model and attachment")
	root := m.PathOrDefault()
	has := func(rs []*opc.Relationship, source, typ, target string) bool {
		n := 0
		for _, r := range rs {
			if r.Type == typ && opc.ResolveRelationship(source, r.TargetURI) == target {
				n++
			}
		}
		return n == 1
	}
	// and no others
	thumbs := 0
	if m.Thumbnail != "" {
		thumbs = 1
	}
	sym.Assert(len(r.Relationships) == 1+thumbs+len(m.RootRelationships), "the package has no other relationships")
	more := func(o []*go3mf.Object, a []go3mf.Asset, rels []rel) (n int) {
		n = len(o) + len(a) + len(rels)
		for _, o := range o {
			if o.Thumbnail == "" {
				n--
			}
		}
		for _, r := range rels {
			if len(a) > 0 && r.Path == fs[0].path && r.Type == materials.RelTypeTexture3D {
				n--
			}
		}
		return
	}
	sym.Assert(len(parts[root]) == 2+more(m.Resources.Objects, m.Resources.Assets, m.Relationships), "a model has no other relationships")
	sym.Assert(len(parts["/3D/a.model"]) == more(child.Resources.Objects, child.Resources.Assets, child.Relationships), "a model has no other relationships")
	sym.Assert(len(parts["/3D/b.model"]) == 0 && len(parts[fs[0].path]) == 0 && len(parts[fs[1].path]) == 0 && len(parts[fs[2].path]) == 0, "what needs no relationships has none")
	sym.Assert(has(r.Relationships, "/", go3mf.RelType3DModel, root), "the package is related to its model")
	sym.Assert(has(parts[root], root, go3mf.RelType3DModel, "/3D/a.model") && has(parts[root], root, go3mf.RelType3DModel, "/3D/b.model"), "the root model is related to its children")
	if user == 0 {
		sym.Assert(has(parts[root], root, materials.RelTypeTexture3D, fs[0].path), "a model is related to its textures")
	} else {
		sym.Assert(has(parts["/3D/a.model"], "/3D/a.model", materials.RelTypeTexture3D, fs[0].path), "a model is related to its textures")
	}
	// everything is found from the package
	seen := map[string]bool{}
	var visit func(source string, rs []*opc.Relationship)
	visit = func(source string, rs []*opc.Relationship) {
		for _, r := range rs {
			t := opc.ResolveRelationship(source, r.TargetURI)
			if _, ok := parts[t]; ok && !seen[t] {
				seen[t] = true
				visit(t, parts[t])
			}
		}
	}
	visit("/", r.Relationships)
	sym.Assert(len(seen) == len(parts), "every part is reached from the package")
	sym.Cover("reachable")
}

// What comes back is saved again as it is.
//
//verif:sched=first
func H_again() {
	fs := []file{{"/3D/a.png", png, []byte{1}}, {"/b.png", png, []byte{2}}}
	m := &go3mf.Model{Attachments: attach(fs...), Thumbnail: fs[1].path, Extensions: []go3mf.Extension{materials.DefaultExtension}}
	m.Resources.Assets = []go3mf.Asset{&materials.Texture2D{ID: sym.Uint32(), Path: fs[0].path, ContentType: materials.TextureTypePNG}}
	child := new(go3mf.ChildModel)
	child.Resources.Objects = []*go3mf.Object{{ID: sym.Uint32(), Mesh: lib.Solid(), Thumbnail: []string{fs[0].path, fs[1].path, ""}[sym.Choice(3)]}}
	m.Childs = map[string]*go3mf.ChildModel{"/3D/a.model": child}
	switch sym.Choice(4) {
	case 0:
		m.Relationships = []rel{{Type: typ(), Path: fs[1].path}}
	case 1:
		m.RootRelationships = []rel{{Type: typ(), Path: fs[0].path}}
	case 2:
		child.Relationships = []rel{{Type: typ(), Path: fs[1].path}}
	}
	first := load(save(m))
	attached(first, fs...)
	rels := func(m *go3mf.Model) [][]rel {
		return [][]rel{m.Relationships, m.RootRelationships, m.Childs["/3D/a.model"].Relationships}
	}
	for i := range first.Attachments {
		for _, f := range fs {
			if first.Attachments[i].Path == f.path {
				first.Attachments[i].Stream = bytes.NewReader(f.data)
			}
		}
	}
	before := rels(first)
	again := load(save(first))
	attached(again, fs...)
	for i, r := range rels(again) {
		related(r, before[i]...)
	}
	sym.Assert(sym.Equal(again.Resources, first.Resources), "the resources are those saved")
	sym.Assert(again.Thumbnail == first.Thumbnail && again.Path == first.Path, "the rest of the model is that saved")
	sym.Assert(sym.Equal(again.Childs["/3D/a.model"].Resources, first.Childs["/3D/a.model"].Resources), "the resources of the child are those saved")
	sym.Cover("again")
}

// Several relationships of everything that has them, and several children.
//
//verif:sched=first
func H_many() {
	var fs []file
	rels := func(where string) (r []rel) {
		for i, n := 0, []int{0, 3, 40}[sym.Choice(3)]; i < n; i++ {
			f := file{where + "a" + strconv.Itoa(i) + ".bin", "application/x" + strconv.Itoa(i), []byte{byte(len(fs)), byte(i)}}
			fs = append(fs, f)
			r = append(r, rel{ID: "id" + strconv.Itoa(i), Type: []string{typ1, typ2}[i%2], Path: f.path})
		}
		return
	}
	m := &go3mf.Model{Path: lib.RootPath, Childs: map[string]*go3mf.ChildModel{}}
	m.RootRelationships, m.Relationships = rels("/"), rels("/3D/")
	paths := []string{"/3D/a.model", "/3D/b.model", "/3D/c.model", "/d.model", "/e.model", "/f.model"}
	for i := len(paths); i < 40; i++ {
		paths = append(paths, "/3D/a"+strconv.Itoa(i)+".model")
	}
	paths = paths[:[]int{1, 6, 40}[sym.Choice(3)]]
	last := rels("/x/")
	for i, p := range paths {
		m.Childs[p] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{{ID: uint32(i + 1), Mesh: lib.Solid()}}}}
		if i == len(paths)-1 {
			m.Childs[p].Relationships = last
		}
	}
	m.Attachments = attach(fs...)
	got := load(save(m))
	attached(got, fs...)
	related(got.RootRelationships, m.RootRelationships...)
	related(got.Relationships, m.Relationships...)
	sym.Assert(len(got.Childs) == len(paths), "there is a child model for each one")
	for _, p := range paths {
		sym.Assert(got.Childs[p] != nil && sym.Equal(got.Childs[p].Resources, m.Childs[p].Resources), "the resources of the child are those saved")
		related(got.Childs[p].Relationships, m.Childs[p].Relationships...)
	}
}

// relative is one of the ways in which a part refers to another.
func relative(forms ...string) string { return forms[sym.Choice(len(forms))] }

// Packages whose relationships have targets relative to their source.
//
//verif:sched=first
func H_relative() {
	const head = `<model xmlns="` + lib.CoreNS + `"><resources><object id="`
	doc := func(id string) []byte { return []byte(head + id + `"/></resources></model>`) }
	a, b, c := file{"/3D/Tex/a.png", png, []byte{1}}, file{"/b.png", png, []byte{2}}, file{"/3D/c.png", png, []byte{3}}
	rootRels := []rel{
		{ID: "r1", Type: go3mf.RelType3DModel, Path: relative("/3D/Tex/c.model", "Tex/c.model", "./Tex/c.model", "../3D/Tex/c.model")},
		{ID: "r2", Type: typ1, Path: relative("/b.png", "../b.png")},
	}
	switch sym.Choice(3) { // the model itself, or the child again
	case 1:
		rootRels = append(rootRels, rel{ID: "r3", Type: go3mf.RelType3DModel, Path: relative("/3D/3dmodel.model", "3dmodel.model")})
	case 2:
		rootRels = append(rootRels, rel{ID: "r3", Type: go3mf.RelType3DModel, Path: relative("/3D/Tex/c.model", "Tex/c.model")})
	}
	childRels := []rel{
		{ID: "r1", Type: typ1, Path: relative("/3D/Tex/a.png", "a.png")},
		{ID: "r2", Type: typ2, Path: relative("/3D/c.png", "../c.png")},
	}
	pkgRels := []rel{
		{ID: "r1", Type: go3mf.RelType3DModel, Path: relative("/3D/3dmodel.model", "3D/3dmodel.model")},
		{ID: "r2", Type: typ2, Path: relative("/3D/c.png", "3D/c.png")},
	}
	files := []lib.File{lib.ModelFile(lib.RootPath, doc("1"), rootRels...), lib.ModelFile("/3D/Tex/c.model", doc("2"), childRels...)}
	for _, f := range []file{a, b, c} {
		files = append(files, lib.File{Path: f.path, Type: f.ctype, Data: f.data})
	}
	got := load(lib.Pack(pkgRels, files...))
	for i := 0; i < 2; i++ {
		attached(got, a, b, c)
		sym.Assert(got.Path == lib.RootPath, "the path of the model is that which was saved")
		sym.Assert(len(got.Childs) == 1 && got.Childs["/3D/Tex/c.model"] != nil && len(got.Resources.Objects) == 1, "the child model is loaded")
		child := got.Childs["/3D/Tex/c.model"]
		sym.Assert(len(child.Resources.Objects) == 1 && child.Resources.Objects[0].ID == 2 && got.Resources.Objects[0].ID == 1, "the resources of the child are those saved")
		related(got.Relationships, rootRels[1])
		related(got.RootRelationships, pkgRels[1])
		related(child.Relationships, childRels...)
		if i == 0 {
			for j := range got.Attachments {
				for _, f := range []file{a, b, c} {
					if got.Attachments[j].Path == f.path {
						got.Attachments[j].Stream = bytes.NewReader(f.data)
					}
				}
			}
			got = load(save(got))
		}
	}
}
