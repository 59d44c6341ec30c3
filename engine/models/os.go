// Package m_os stands in for the file functions of package os: regular files that keep exactly the bytes written to them.
package m_os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"time"
)

type inode struct{ data []byte }

type handle struct {
	ino    *inode
	name   string
	pos    int
	flag   int
	closed bool
}

var files = map[string]*inode{}
var open = map[*os.File]*handle{}

var errClosed = errors.New("file already closed")

func pathErr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

//verif:model os.OpenFile
func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	ino := files[name]
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, pathErr("open", name, fs.ErrNotExist)
		}
		ino = &inode{}
		files[name] = ino
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, pathErr("open", name, fs.ErrExist)
	}
	if flag&os.O_TRUNC != 0 {
		ino.data = nil
	}
	f := new(os.File)
	open[f] = &handle{ino: ino, name: name, flag: flag}
	return f, nil
}

//verif:model os.Open
func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }

//verif:model os.Create
func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

//verif:model os.ReadFile
func ReadFile(name string) ([]byte, error) {
	ino := files[name]
	if ino == nil {
		return nil, pathErr("open", name, fs.ErrNotExist)
	}
	return append([]byte{}, ino.data...), nil
}

//verif:model os.WriteFile
func WriteFile(name string, data []byte, perm os.FileMode) error {
	files[name] = &inode{data: append([]byte{}, data...)}
	return nil
}

//verif:model os.Remove
func Remove(name string) error {
	if files[name] == nil {
		return pathErr("remove", name, fs.ErrNotExist)
	}
	delete(files, name)
	return nil
}

//verif:model os.RemoveAll
func RemoveAll(name string) error {
	delete(files, name)
	return nil
}

//verif:model os.Rename
func Rename(a, b string) error {
	if files[a] == nil {
		return pathErr("rename", a, fs.ErrNotExist)
	}
	files[b] = files[a]
	delete(files, a)
	return nil
}

//verif:model os.Truncate
func Truncate(name string, size int64) error {
	ino := files[name]
	if ino == nil {
		return pathErr("truncate", name, fs.ErrNotExist)
	}
	return resize(ino, size)
}

func resize(ino *inode, size int64) error {
	if int(size) <= len(ino.data) {
		ino.data = ino.data[:size:size]
	} else {
		ino.data = append(ino.data, make([]byte, int(size)-len(ino.data))...)
	}
	return nil
}

//verif:model os.MkdirAll
func MkdirAll(string, os.FileMode) error { return nil }

//verif:model os.IsNotExist
func IsNotExist(err error) bool { return errors.Is(err, fs.ErrNotExist) }

type info struct {
	name string
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return 0o644 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

//verif:model os.Stat
func Stat(name string) (os.FileInfo, error) {
	ino := files[name]
	if ino == nil {
		return nil, pathErr("stat", name, fs.ErrNotExist)
	}
	return info{name, int64(len(ino.data))}, nil
}

//verif:model os.Lstat
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

//verif:model (*os.File).Stat
func FileStat(f *os.File) (os.FileInfo, error) {
	h, err := at(f, "stat")
	if err != nil {
		return nil, err
	}
	return info{h.name, int64(len(h.ino.data))}, nil
}

func at(f *os.File, op string) (*handle, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}
	h := open[f]
	if h == nil || h.closed {
		return nil, pathErr(op, "", errClosed)
	}
	return h, nil
}

//verif:model (*os.File).Name
func FileName(f *os.File) string { return open[f].name }

//verif:model (*os.File).Write
func FileWrite(f *os.File, b []byte) (int, error) {
	h, err := at(f, "write")
	if err != nil {
		return 0, err
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, pathErr("write", h.name, errors.New("bad file descriptor"))
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = len(h.ino.data)
	}
	put(h.ino, h.pos, b)
	h.pos += len(b)
	return len(b), nil
}

func put(ino *inode, pos int, b []byte) {
	if pos == len(ino.data) {
		ino.data = append(ino.data, b...)
		return
	}
	if need := pos + len(b); need > len(ino.data) {
		resize(ino, int64(need))
	}
	copy(ino.data[pos:], b)
}

//verif:model (*os.File).WriteString
func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

//verif:model (*os.File).WriteAt
func FileWriteAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := at(f, "write")
	if err != nil {
		return 0, err
	}
	put(h.ino, int(off), b)
	return len(b), nil
}

//verif:model (*os.File).Read
func FileRead(f *os.File, b []byte) (int, error) {
	h, err := at(f, "read")
	if err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.ino.data) {
		return 0, io.EOF
	}
	n := copy(b, h.ino.data[h.pos:])
	h.pos += n
	return n, nil
}

//verif:model (*os.File).ReadAt
func FileReadAt(f *os.File, b []byte, off int64) (int, error) {
	h, err := at(f, "read")
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, pathErr("readat", h.name, errors.New("negative offset"))
	}
	if int(off) >= len(h.ino.data) {
		return 0, io.EOF
	}
	n := copy(b, h.ino.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

//verif:model (*os.File).Seek
func FileSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := at(f, "seek")
	if err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(h.pos)
	case io.SeekEnd:
		off += int64(len(h.ino.data))
	}
	h.pos = int(off)
	return off, nil
}

//verif:model (*os.File).Truncate
func FileTruncate(f *os.File, size int64) error {
	h, err := at(f, "truncate")
	if err != nil {
		return err
	}
	return resize(h.ino, size)
}

//verif:model (*os.File).Sync
func FileSync(f *os.File) error { _, err := at(f, "sync"); return err }

//verif:model (*os.File).Close
func FileClose(f *os.File) error {
	h, err := at(f, "close")
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}
