//go:build go1.22

package verifstub

import (
	"io"
	"io/fs"
	"os"
	"strconv"
	"time"
)

// A file system held in memory: whatever the real one can do
// to a process that owns the directories it uses.

type mfile struct {
	data []byte
	dir  bool
}

type mopen struct {
	f      *mfile
	name   string
	pos    int64
	closed bool
	rd, wr bool
	app    bool
}

var (
	disk    = map[string]*mfile{}
	opened  = map[*os.File]*mopen{}
	ntmp    int
	nopened int
)

type minfo struct {
	name string
	f    *mfile
}

func (i minfo) Name() string       { return i.name }
func (i minfo) Size() int64        { return int64(len(i.f.data)) }
func (i minfo) ModTime() time.Time { return time.Time{} }
func (i minfo) IsDir() bool        { return i.f.dir }
func (i minfo) Sys() any           { return nil }
func (i minfo) Mode() fs.FileMode {
	if i.f.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}

type ioError string

func (e ioError) Error() string { return string(e) }

func pathError(op, name string, err error) error {
	return &fs.PathError{Op: op, Path: name, Err: err}
}

func parentExists(name string) bool {
	for i := len(name) - 1; i > 0; i-- {
		if name[i] == '/' {
			f := disk[name[:i]]
			return f != nil && f.dir
		}
	}
	return false
}

//verif:replace os.OpenFile
func osOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	f := disk[name]
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	switch {
	case f == nil && flag&os.O_CREATE == 0, f == nil && !parentExists(name):
		return nil, pathError("open", name, fs.ErrNotExist)
	case f != nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, pathError("open", name, fs.ErrExist)
	case f != nil && f.dir && wr:
		return nil, pathError("open", name, ioError("is a directory"))
	case f == nil:
		f = new(mfile)
		disk[name] = f
	}
	if flag&os.O_TRUNC != 0 {
		f.data = nil
	}
	h := new(os.File)
	opened[h] = &mopen{f: f, name: name, rd: flag&os.O_WRONLY == 0, wr: wr, app: flag&os.O_APPEND != 0}
	nopened++
	return h, nil
}

//verif:replace os.Open
func osOpen(name string) (*os.File, error) { return osOpenFile(name, os.O_RDONLY, 0) }

//verif:replace os.Create
func osCreate(name string) (*os.File, error) {
	return osOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func (o *mopen) check(op string, can bool) error {
	switch {
	case o == nil:
		return os.ErrInvalid
	case o.closed:
		return pathError(op, o.name, fs.ErrClosed)
	case o.f.dir:
		return pathError(op, o.name, ioError("is a directory"))
	case !can:
		return pathError(op, o.name, ioError("bad file descriptor"))
	}
	return nil
}

//verif:replace (*os.File).Close
func fileClose(h *os.File) error {
	o := opened[h]
	if o == nil {
		return os.ErrInvalid
	}
	if o.closed {
		return pathError("close", o.name, fs.ErrClosed)
	}
	o.closed = true
	nopened--
	return nil
}

//verif:replace (*os.File).Name
func fileName(h *os.File) string { return opened[h].name }

//verif:replace (*os.File).Sync
func fileSync(h *os.File) error { return opened[h].check("sync", true) }

//verif:replace (*os.File).Stat
func fileStat(h *os.File) (os.FileInfo, error) {
	o := opened[h]
	if o == nil {
		return nil, os.ErrInvalid
	}
	if o.closed {
		return nil, pathError("stat", o.name, fs.ErrClosed)
	}
	return minfo{o.name, o.f}, nil
}

//verif:replace (*os.File).ReadAt
func fileReadAt(h *os.File, b []byte, off int64) (int, error) {
	o := opened[h]
	if err := o.check("read", o != nil && o.rd); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, pathError("readat", o.name, ioError("negative offset"))
	}
	if off >= int64(len(o.f.data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, o.f.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

//verif:replace (*os.File).Read
func fileRead(h *os.File, b []byte) (int, error) {
	o := opened[h]
	if err := o.check("read", o != nil && o.rd); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if o.pos >= int64(len(o.f.data)) {
		return 0, io.EOF
	}
	n := copy(b, o.f.data[o.pos:])
	o.pos += int64(n)
	return n, nil
}

//verif:replace (*os.File).Write
func fileWrite(h *os.File, b []byte) (int, error) {
	o := opened[h]
	if err := o.check("write", o != nil && o.wr); err != nil {
		return 0, err
	}
	if o.app {
		o.pos = int64(len(o.f.data))
	}
	for int64(len(o.f.data)) < o.pos {
		o.f.data = append(o.f.data, 0)
	}
	n := copy(o.f.data[o.pos:], b)
	o.f.data = append(o.f.data, b[n:]...)
	o.pos += int64(len(b))
	return len(b), nil
}

//verif:replace (*os.File).WriteString
func fileWriteString(h *os.File, s string) (int, error) { return fileWrite(h, []byte(s)) }

//verif:replace (*os.File).Seek
func fileSeek(h *os.File, off int64, whence int) (int64, error) {
	o := opened[h]
	if o == nil {
		return 0, os.ErrInvalid
	}
	if o.closed {
		return 0, pathError("seek", o.name, fs.ErrClosed)
	}
	switch whence {
	case io.SeekCurrent:
		off += o.pos
	case io.SeekEnd:
		off += int64(len(o.f.data))
	}
	if off < 0 {
		return 0, pathError("seek", o.name, ioError("invalid argument"))
	}
	o.pos = off
	return off, nil
}

//verif:replace (*os.File).Truncate
func fileTruncate(h *os.File, size int64) error {
	o := opened[h]
	if err := o.check("truncate", o != nil && o.wr); err != nil {
		return err
	}
	for int64(len(o.f.data)) < size {
		o.f.data = append(o.f.data, 0)
	}
	o.f.data = o.f.data[:size]
	return nil
}

//verif:replace os.Stat
func osStat(name string) (os.FileInfo, error) {
	f := disk[name]
	if f == nil {
		return nil, pathError("stat", name, fs.ErrNotExist)
	}
	return minfo{name, f}, nil
}

//verif:replace os.Remove
func osRemove(name string) error {
	if disk[name] == nil {
		return pathError("remove", name, fs.ErrNotExist)
	}
	delete(disk, name)
	return nil
}

//verif:replace os.RemoveAll
func osRemoveAll(name string) error {
	var names []string
	for n := range disk {
		if n == name || len(n) > len(name) && n[:len(name)] == name && n[len(name)] == '/' {
			names = append(names, n)
		}
	}
	for _, n := range names {
		delete(disk, n)
	}
	return nil
}

//verif:replace os.Rename
func osRename(from, to string) error {
	f := disk[from]
	if f == nil {
		return pathError("rename", from, fs.ErrNotExist)
	}
	delete(disk, from)
	disk[to] = f
	return nil
}

//verif:replace os.MkdirTemp
func osMkdirTemp(dir, pattern string) (string, error) {
	ntmp++
	name := "/tmp/verif" + strconv.Itoa(ntmp)
	disk[name] = &mfile{dir: true}
	return name, nil
}

//verif:replace os.Mkdir
func osMkdir(name string, perm os.FileMode) error {
	if disk[name] != nil {
		return pathError("mkdir", name, fs.ErrExist)
	}
	disk[name] = &mfile{dir: true}
	return nil
}

//verif:replace os.CreateTemp
func osCreateTemp(dir, pattern string) (*os.File, error) {
	ntmp++
	if dir == "" {
		dir = "/tmp"
		disk[dir] = &mfile{dir: true}
	}
	return osOpenFile(dir+"/"+pattern+strconv.Itoa(ntmp), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

//verif:replace os.ReadFile
func osReadFile(name string) ([]byte, error) {
	f := disk[name]
	if f == nil {
		return nil, pathError("open", name, fs.ErrNotExist)
	}
	if f.dir {
		return nil, pathError("read", name, ioError("is a directory"))
	}
	return append([]byte{}, f.data...), nil
}

//verif:replace os.WriteFile
func osWriteFile(name string, data []byte, perm os.FileMode) error {
	h, err := osOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	fileWrite(h, data)
	return fileClose(h)
}

// Only the descriptors of the process are ever listed.
//
//verif:replace os.ReadDir
func osReadDir(name string) ([]os.DirEntry, error) {
	return make([]os.DirEntry, nopened), nil
}
