//go:build go1.22

package lib

import (
	"bytes"
	"context"
	"io"

	"github.com/hpinc/go3mf"
	"github.com/qmuntal/opc"
)

// RootPath is the part of the root model in packages made by Pack.
const RootPath = go3mf.DefaultModelPath

// File is a part of a package.
type File struct {
	Path, Type string
	Data       []byte
	Rels       []go3mf.Relationship
}

// ModelFile is a part holding a model document.
func ModelFile(path string, data []byte, rels ...go3mf.Relationship) File {
	return File{path, go3mf.ContentType3DModel, data, rels}
}

// ChildRel is the relationship of a root model to a child model.
func ChildRel(path string) go3mf.Relationship {
	return go3mf.Relationship{Path: path, Type: go3mf.RelType3DModel}
}

// Pack makes a package out of its parts; rels are those of the package.
func Pack(rels []go3mf.Relationship, files ...File) []byte {
	var b bytes.Buffer
	w := opc.NewWriter(&b)
	for _, f := range files {
		p := &opc.Part{Name: f.Path, ContentType: f.Type}
		for _, r := range f.Rels {
			p.Relationships = append(p.Relationships, &opc.Relationship{ID: r.ID, Type: r.Type, TargetURI: r.Path})
		}
		fw, err := w.CreatePart(p, opc.CompressionNormal)
		if err != nil {
			panic(err)
		}
		if _, err := fw.Write(f.Data); err != nil {
			panic(err)
		}
	}
	for _, r := range rels {
		w.Relationships = append(w.Relationships, &opc.Relationship{ID: r.ID, Type: r.Type, TargetURI: r.Path})
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// PackRoot makes a package whose root model is the given document.
func PackRoot(doc []byte, childs ...File) []byte {
	root := ModelFile(RootPath, doc)
	for i, c := range childs {
		r := ChildRel(c.Path)
		r.ID = "rel" + string(rune('0'+i))
		root.Rels = append(root.Rels, r)
	}
	return Pack([]go3mf.Relationship{ChildRel(RootPath)}, append([]File{root}, childs...)...)
}

// DecodeDoc decodes a model document, in a package of its own when strict.
func DecodeDoc(doc []byte, strict bool) (*go3mf.Model, error) {
	if strict {
		return Decode(PackRoot(doc), true)
	}
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc, m)
	return m, err
}

// DecodeContext loads a package under a context.
func DecodeContext(ctx context.Context, b []byte, strict bool) (*go3mf.Model, error) {
	m := new(go3mf.Model)
	d := go3mf.NewDecoder(bytes.NewReader(b), int64(len(b)))
	d.Strict = strict
	err := d.DecodeContext(ctx, m)
	return m, err
}

// ReadPart is the content of a part of a package.
func ReadPart(pkg []byte, path string) ([]byte, bool) {
	r, err := opc.NewReader(bytes.NewReader(pkg), int64(len(pkg)))
	if err != nil {
		panic(err)
	}
	for _, f := range r.Files {
		if f.Name == path {
			rc, err := f.Open()
			if err != nil {
				panic(err)
			}
			b, err := io.ReadAll(rc)
			if err != nil {
				panic(err)
			}
			return b, true
		}
	}
	return nil, false
}
