//go:build go1.22

package verifstub

import (
	"archive/zip"
	"bufio"
	"errors"
	"io"
	"time"
	"unsafe"

	"github.com/qmuntal/opc"
)

// The container (zip, deflate, and the two XML parts OPC keeps for itself) is
// modelled: a package is a list of named parts that come back as they were written.

type vpart struct {
	name string
	data []byte
	off  int64 // of the data in the package
	rels []*opc.Relationship
	ct   *contentTypesMirror
	zw   *vzip
}

type vzip struct {
	out    *bufio.Writer
	size   int64
	parts  []*vpart
	closed bool
}

type contentTypesMirror struct {
	defaults  map[string]string
	overrides map[string]string
}

type pkgMirror struct {
	parts        map[string]struct{}
	contentTypes contentTypesMirror
}

var (
	writers = map[*zip.Writer]*vzip{}
	readers = map[*zip.Reader]*vread{}
	files   = map[*zip.File]*vfile{}
	store   []*vzip
)

type vread struct {
	dec func(io.Reader) io.ReadCloser
}

type vfile struct {
	r  *vread
	p  *vpart
	ra io.ReaderAt
}

var errFormat = errors.New("zip: not a valid zip file")

const magic = "VERIFZIP"

func (z *vzip) write(b []byte) error {
	z.size += int64(len(b))
	_, err := z.out.Write(b)
	return err
}

func (p *vpart) Write(b []byte) (int, error) {
	if err := p.zw.write(b); err != nil {
		return 0, err
	}
	p.data = append(p.data, b...)
	return len(b), nil
}

// header is written before the data of each part.
var header [30]byte

//verif:replace archive/zip.NewWriter
func zipNewWriter(w io.Writer) *zip.Writer {
	zw := new(zip.Writer)
	writers[zw] = &vzip{out: bufio.NewWriter(w)}
	return zw
}

//verif:replace (*archive/zip.Writer).CreateHeader
func zipCreateHeader(w *zip.Writer, fh *zip.FileHeader) (io.Writer, error) {
	z := writers[w]
	if z.closed {
		return nil, errors.New("zip: write to closed file")
	}
	if err := z.write(header[:]); err != nil {
		return nil, err
	}
	p := &vpart{name: fh.Name, zw: z, off: z.size}
	z.parts = append(z.parts, p)
	return p, nil
}

//verif:replace (*archive/zip.Writer).RegisterCompressor
func zipRegisterCompressor(w *zip.Writer, method uint16, comp zip.Compressor) {}

//verif:replace (*archive/zip.Writer).Flush
func zipFlush(w *zip.Writer) error { return nil }

//verif:replace (*archive/zip.Writer).Close
func zipClose(w *zip.Writer) error {
	z := writers[w]
	if z.closed {
		return errors.New("zip: writer closed twice")
	}
	z.closed = true
	n := len(store)
	store = append(store, z)
	if err := z.write([]byte(magic + string([]byte{byte(n), byte(n >> 8)}))); err != nil {
		return err
	}
	return z.out.Flush()
}

//verif:replace archive/zip.NewReader
func zipNewReader(ra io.ReaderAt, size int64) (*zip.Reader, error) {
	n := int64(len(magic) + 2)
	if size < n {
		return nil, errFormat
	}
	b := make([]byte, n)
	if k, err := ra.ReadAt(b, size-n); k < len(b) {
		if err == nil {
			err = io.ErrUnexpectedEOF
		}
		return nil, err
	}
	if string(b[:len(magic)]) != magic {
		return nil, errFormat
	}
	z := store[int(b[n-2])|int(b[n-1])<<8]
	zr := new(zip.Reader)
	v := &vread{}
	readers[zr] = v
	for _, p := range z.parts {
		f := new(zip.File)
		f.Name = p.name
		f.UncompressedSize64 = uint64(len(p.data))
		files[f] = &vfile{v, p, ra}
		zr.File = append(zr.File, f)
	}
	return zr, nil
}

//verif:replace (*archive/zip.Reader).RegisterDecompressor
func zipRegisterDecompressor(r *zip.Reader, method uint16, dcomp zip.Decompressor) {
	readers[r].dec = dcomp
}

type vpartReader struct {
	f   *vfile
	pos int
}

func (r *vpartReader) Read(b []byte) (int, error) {
	if r.pos >= len(r.f.p.data) {
		return 0, io.EOF
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := copy(b, r.f.p.data[r.pos:])
	k, err := r.f.ra.ReadAt(b[:n], r.f.p.off+int64(r.pos))
	if k < n {
		if err == nil || err == io.EOF {
			return 0, io.ErrUnexpectedEOF // what was read is not returned
		}
		n = k
	} else {
		err = nil
	}
	copy(b[:n], r.f.p.data[r.pos:])
	r.pos += n
	if err == nil && r.pos >= len(r.f.p.data) {
		err = io.EOF // as flate does
	}
	return n, err
}

func (r *vpartReader) Close() error { return nil }

// opcPart is how opc's own decoders recognise the part they are given.
type opcPart interface{ part() *vpart }

func (r *vpartReader) part() *vpart { return r.f.p }

//verif:replace (*archive/zip.File).Open
func zipOpen(f *zip.File) (io.ReadCloser, error) {
	v := files[f]
	var h [len(header)]byte
	if k, err := v.ra.ReadAt(h[:], v.p.off-int64(len(header))); k < len(h) {
		if err == nil {
			err = io.ErrUnexpectedEOF
		}
		return nil, err
	}
	r := &vpartReader{f: v}
	if v.p.rels == nil && v.p.ct == nil && v.r.dec != nil {
		return v.r.dec(r), nil
	}
	return r, nil
}

//verif:replace github.com/qmuntal/opc.encodeRelationships
func encodeRelationships(w io.Writer, rs []*opc.Relationship) error {
	p := w.(*vpart)
	p.rels = []*opc.Relationship{}
	for _, r := range rs {
		c := *r
		p.rels = append(p.rels, &c)
	}
	_, err := w.Write([]byte("rels"))
	return err
}

//verif:replace (*github.com/qmuntal/opc.pkg).encodeContentTypes
func encodeContentTypes(pk unsafe.Pointer, w io.Writer) error {
	p := w.(*vpart)
	src := &(*pkgMirror)(pk).contentTypes
	p.ct = copyTypes(src)
	_, err := w.Write([]byte("types"))
	return err
}

func copyTypes(src *contentTypesMirror) *contentTypesMirror {
	c := &contentTypesMirror{map[string]string{}, map[string]string{}}
	for k, v := range src.defaults {
		c.defaults[k] = v
	}
	for k, v := range src.overrides {
		c.overrides[k] = v
	}
	return c
}

//verif:replace github.com/qmuntal/opc.decodeRelationships
func decodeRelationships(r io.Reader, partName string) ([]*opc.Relationship, error) {
	if _, err := io.ReadAll(r); err != nil {
		return nil, err
	}
	p := r.(opcPart).part()
	rel := make([]*opc.Relationship, len(p.rels))
	for i, x := range p.rels {
		c := *x
		rel[i] = &c
	}
	return rel, nil
}

//verif:replace github.com/qmuntal/opc.decodeContentTypes
func decodeContentTypes(r io.Reader) (unsafe.Pointer, error) {
	if _, err := io.ReadAll(r); err != nil {
		return nil, err
	}
	p := r.(opcPart).part()
	return unsafe.Pointer(copyTypes(p.ct)), nil
}

//verif:replace time.Now
func now() time.Time { return time.Time{} }
