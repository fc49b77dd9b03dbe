//go:build go1.22

// Package c35: models saved in files.
package c35

import (
	"bytes"
	"io"
	"os"

	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=30 thorough=300

func base() *go3mf.Model {
	return &go3mf.Model{
		Resources: go3mf.Resources{Objects: []*go3mf.Object{{ID: 1, Mesh: lib.Solid()}}},
		Build:     go3mf.Build{Items: []*go3mf.Item{{ObjectID: 1}}},
	}
}

// a model with something of everything a file holds.
func model() *go3mf.Model {
	m := base()
	o := m.Resources.Objects[0]
	o.Name, o.PartNumber = lib.Word(1), lib.Word(1)
	o.Type = go3mf.ObjectType(sym.Choice(3))
	for i, n := 0, sym.Choice(3); i < n; i++ {
		m.Attachments = append(m.Attachments, go3mf.Attachment{
			Path: "/a" + string(rune('0'+i)) + ".bin", ContentType: "application/x",
			Stream: bytes.NewReader(sym.Bytes(2))})
		m.Relationships = append(m.Relationships, go3mf.Relationship{
			Path: m.Attachments[i].Path, Type: "http://x/" + string(rune('0'+i)), ID: "id" + string(rune('0'+i))})
	}
	return m
}

// content reads an attachment from its start.
func content(a go3mf.Attachment) string {
	if s, ok := a.Stream.(io.Seeker); ok {
		s.Seek(0, io.SeekStart)
	}
	b, err := io.ReadAll(a.Stream)
	if err != nil {
		return "error"
	}
	return string(b)
}

// same is true if a model read from a file is the one it was made of.
func same(got, want *go3mf.Model) bool {
	if len(got.Attachments) != len(want.Attachments) || len(got.Resources.Objects) != 1 {
		return false
	}
	for _, a := range want.Attachments {
		found := false
		for _, b := range got.Attachments {
			if a.Path == b.Path {
				found = a.ContentType == b.ContentType && content(a) == content(b)
			}
		}
		if !found {
			return false
		}
	}
	g, w := got.Resources.Objects[0], want.Resources.Objects[0]
	return g.ID == w.ID && g.Name == w.Name && g.PartNumber == w.PartNumber && g.Type == w.Type &&
		sym.Equal(g.Mesh.Vertices.Vertex, w.Mesh.Vertices.Vertex) &&
		sym.Equal(g.Mesh.Triangles.Triangle, w.Mesh.Triangles.Triangle) && len(got.Build.Items) == len(want.Build.Items)
}

func write(name string, m *go3mf.Model) error {
	w, err := go3mf.CreateWriter(name)
	if err != nil {
		return err
	}
	if err := w.Encode(m); err != nil {
		w.Close()
		return err
	}
	return w.Close()
}

func read(name string) (*go3mf.Model, error) {
	r, err := go3mf.OpenReader(name)
	if err != nil {
		return nil, err
	}
	m := new(go3mf.Model)
	if err := r.Decode(m); err != nil {
		r.Close()
		return nil, err
	}
	return m, r.Close()
}

// older leaves in a file what it had before the model was saved.
func older(name string) {
	switch sym.Choice(5) {
	case 1:
		must(os.WriteFile(name, sym.Bytes(1), 0o600))
	case 2:
		must(os.WriteFile(name, make([]byte, 70000), 0o600))
	case 3: // another model, which takes less
		must(write(name, new(go3mf.Model)))
	case 4: // another model, which takes more
		m := base()
		for i := 0; i < 3; i++ {
			m.Attachments = append(m.Attachments, go3mf.Attachment{
				Path: "/big" + string(rune('0'+i)) + ".bin", ContentType: "application/y", Stream: bytes.NewReader(noise(2048))})
			m.Relationships = append(m.Relationships, go3mf.Relationship{Path: m.Attachments[i].Path, Type: "http://y/z"})
		}
		must(write(name, m))
	}
}

// noise is not easily compressed.
func noise(n int) []byte {
	b, x := make([]byte, n), uint32(1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// A model saved in a file is read from it, whatever the file had.
func H_round() {
	lib.InDir(func(dir string) {
		name := dir + "/x.3mf"
		older(name)
		m := model()
		open := lib.Descriptors()
		err := write(name, m)
		sym.Assert(err == nil, "a model is saved in a file")
		sym.Assert(lib.Descriptors() == open, "a file that was saved is not left open")
		got, err := read(name)
		sym.Assert(err == nil && same(got, m), "the model in a file is the one that was saved")
		sym.Assert(lib.Descriptors() == open, "a file that was read is not left open")
		first, err := os.ReadFile(name)
		must(err)
		rewind(m)
		sym.Assert(write(name, m) == nil, "a model is saved in a file again")
		second, err := os.ReadFile(name)
		sym.Assert(err == nil && len(second) < 2*len(first), "what a file had is not kept when a model is saved in it")
	})
}

func rewind(m *go3mf.Model) {
	for _, a := range m.Attachments {
		a.Stream.(io.Seeker).Seek(0, io.SeekStart)
	}
}

// The attachments can be used once the file is closed.
func H_two() {
	lib.InDir(func(dir string) {
		a, b := dir+"/a.3mf", dir+"/b.3mf"
		ma, mb := model(), model()
		wa, err := go3mf.CreateWriter(a)
		must(err)
		wb, err := go3mf.CreateWriter(b)
		must(err)
		sym.Assert(wb.Encode(mb) == nil && wa.Encode(ma) == nil, "two models are saved in two files")
		sym.Assert(wa.Close() == nil && wb.Close() == nil, "files are closed")
		ra, err := go3mf.OpenReader(a)
		must(err)
		rb, err := go3mf.OpenReader(b)
		must(err)
		ga, gb := new(go3mf.Model), new(go3mf.Model)
		sym.Assert(rb.Decode(gb) == nil && ra.Decode(ga) == nil, "two files are read")
		sym.Assert(ra.Close() == nil && rb.Close() == nil, "files are closed")
		sym.Assert(same(ga, ma), "each file holds its own model")
		sym.Assert(same(gb, mb), "each file holds its own model")
	})
}

// What cannot be opened is an error, and nothing is left open.
func H_missing() {
	lib.InDir(func(dir string) {
		must(os.Mkdir(dir+"/d", 0o700))
		name := []string{"/x.3mf", "/d", "/n/x.3mf", "/d/"}[sym.Concrete(sym.Choice(3))]
		open := lib.Descriptors()
		if sym.Bool() {
			_, err := read(dir + name)
			sym.Assert(err != nil, "what is not a file cannot be read")
			if name == "/x.3mf" {
				_, err = os.Stat(dir + name)
				sym.Assert(err != nil, "reading makes no file")
			}
		} else if name != "/x.3mf" {
			sym.Assert(write(dir+name, base()) != nil, "what is not a file cannot be written")
		}
		sym.Assert(lib.Descriptors() == open, "what fails leaves no file open")
	})
}

// What is not a package is an error.
func H_broken() {
	lib.InDir(func(dir string) {
		name := dir + "/x.3mf"
		var data []byte
		switch sym.Choice(3) {
		case 0:
			data = sym.Bytes(sym.Concrete(sym.Choice(sym.Bound(5, 30))))
		case 1:
			m := base()
			must(write(name, m))
			b, err := os.ReadFile(name)
			must(err)
			data = b[:len(b)-1-sym.Concrete(sym.Choice(sym.Bound(9, 30)))]
		}
		must(os.WriteFile(name, data, 0o600))
		open := lib.Descriptors()
		_, err := read(name)
		sym.Assert(err != nil, "what is not a package is not a model")
		sym.Assert(lib.Descriptors() == open, "what fails leaves no file open")
		b, err := os.ReadFile(name)
		sym.Assert(err == nil && bytes.Equal(b, data), "reading a file leaves it as it was")
	})
}

// What is closed can no longer be used.
func H_closed() {
	lib.InDir(func(dir string) {
		name := dir + "/x.3mf"
		open := lib.Descriptors()
		w, err := go3mf.CreateWriter(name)
		must(err)
		m := model()
		done := sym.Bool()
		if done {
			must(w.Encode(m))
		}
		sym.Assert(w.Close() == nil, "files are closed")
		sym.Assert(lib.Descriptors() == open, "closing a writer closes its file")
		before, err := os.ReadFile(name)
		must(err)
		sym.Assert(w.Encode(base()) != nil, "nothing is saved in a file that is closed")
		sym.Assert(w.Close() != nil, "a file is closed once")
		after, err := os.ReadFile(name)
		must(err)
		sym.Assert(bytes.Equal(before, after), "a file that is closed does not change")

		r, err := go3mf.OpenReader(name)
		must(err)
		sym.Assert(r.Close() == nil, "files are closed")
		sym.Assert(lib.Descriptors() == open, "closing a reader closes its file")
		sym.Assert(r.Decode(new(go3mf.Model)) != nil, "nothing is read from a file that is closed")
		sym.Assert(r.Close() != nil, "a file is closed once")
		if done {
			got, err := read(name)
			sym.Assert(err == nil && same(got, m), "a file still holds what was saved")
		}
	})
}

// A model that cannot be saved is reported, and its file can still be closed.
func H_unsaved() {
	lib.InDir(func(dir string) {
		name := dir + "/x.3mf"
		older(name)
		open := lib.Descriptors()
		m := base()
		m.Attachments = []go3mf.Attachment{{Path: "/a.bin", ContentType: "a/b", Stream: failing{}}}
		m.Relationships = []go3mf.Relationship{{Path: "/a.bin", Type: "http://x"}}
		w, err := go3mf.CreateWriter(name)
		must(err)
		sym.Assert(w.Encode(m) != nil, "a model that cannot be saved is reported")
		sym.Assert(w.Close() == nil, "files are closed")
		sym.Assert(lib.Descriptors() == open, "what fails leaves no file open")
	})
}

type failing struct{}

func (failing) Read([]byte) (int, error) { return 0, io.ErrClosedPipe }
