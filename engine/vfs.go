package main

import (
	"path"
	"strings"
)

// VFS is the in-memory file system seen by the program under analysis.
type VFS struct {
	files map[string]*Str
	dirs  map[string]bool
	cwd   string
	open  int
	h     map[int]*vhandle
	next  int
}

type vhandle struct {
	path   string
	off    int
	write  bool
	closed bool
}

func newVFS() *VFS {
	return &VFS{files: map[string]*Str{}, dirs: map[string]bool{"/": true, "/work": true, "/tmp": true}, cwd: "/work", h: map[int]*vhandle{}}
}

func (v *VFS) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = v.cwd + "/" + p
	}
	return path.Clean(p)
}

func (v *VFS) write(w *Worker, p string, s *Str) {
	p = v.abs(p)
	old, had := v.files[p]
	w.journal = append(w.journal, undo{f: func() {
		if had {
			v.files[p] = old
		} else {
			delete(v.files, p)
		}
	}})
	v.files[p] = s
	for d := path.Dir(p); !v.dirs[d]; d = path.Dir(d) {
		v.mkdir(w, d)
	}
}

func (v *VFS) mkdir(w *Worker, p string) {
	p = v.abs(p)
	if v.dirs[p] {
		return
	}
	v.dirs[p] = true
	w.journal = append(w.journal, undo{f: func() { delete(v.dirs, p) }})
}

func (v *VFS) read(p string) (*Str, bool) {
	s, ok := v.files[v.abs(p)]
	if !ok {
		return emptyStr, false
	}
	return s, true
}

func init() {
	in := func(name string, f Intrinsic) { intrinsics[modPath+"."+name] = f }
	// vOpen(path, create) (handle int, errno string, dir bool)
	in("vOpen", func(w *Worker, a []Value) Value {
		v := w.vfs
		p := v.abs(w.mustConc(a[0]))
		create := a[1].n != 0
		if strings.IndexByte(p, 0) >= 0 {
			return tup(vInt(-1), vInt(22))
		}
		if v.dirs[p] {
			if create {
				return tup(vInt(-1), vInt(21))
			}
		} else if create {
			if !v.dirs[path.Dir(p)] {
				return tup(vInt(-1), vInt(2))
			}
			v.write(w, p, emptyStr)
		} else if _, ok := v.files[p]; !ok {
			// a file used as a directory
			for d := path.Dir(p); d != "/"; d = path.Dir(d) {
				if _, ok := v.files[d]; ok {
					return tup(vInt(-1), vInt(20))
				}
			}
			return tup(vInt(-1), vInt(2))
		}
		id := v.next
		h := &vhandle{path: p, write: create}
		v.next++
		v.open++
		v.h[id] = h
		w.journal = append(w.journal, undo{f: func() { v.next--; v.open--; delete(v.h, id) }})
		return tup(vInt(int64(id)), vInt(0))
	})
	in("vRead", func(w *Worker, a []Value) Value { // (handle, buf) (n, errno)
		v := w.vfs
		h := v.h[int(a[0].n)]
		if h == nil || h.closed {
			return tup(vInt(0), vInt(9))
		}
		if v.dirs[h.path] {
			return tup(vInt(0), vInt(21))
		}
		s := v.files[h.path]
		b := sl(a[1])
		n := 0
		if b != nil {
			n = min(b.len, len(s.s)-h.off)
		}
		for i := 0; i < n; i++ {
			w.set(b.obj, b.off+i, s.at(h.off+i))
		}
		off := h.off
		w.journal = append(w.journal, undo{f: func() { h.off = off }})
		h.off += n
		return tup(vInt(int64(n)), vInt(0))
	})
	in("vWrite", func(w *Worker, a []Value) Value {
		v := w.vfs
		h := v.h[int(a[0].n)]
		if h == nil || h.closed {
			return tup(vInt(0), vInt(9))
		}
		s := bytesToStr(sl(a[1]))
		v.write(w, h.path, concatStr(v.files[h.path], s))
		return tup(vInt(int64(len(s.s))), vInt(0))
	})
	in("vClose", func(w *Worker, a []Value) Value {
		v := w.vfs
		h := v.h[int(a[0].n)]
		if h == nil || h.closed {
			return vInt(9)
		}
		h.closed = true
		v.open--
		w.journal = append(w.journal, undo{f: func() { h.closed = false; v.open++ }})
		return vInt(0)
	})
	in("vChdir", func(w *Worker, a []Value) Value {
		v := w.vfs
		p := v.abs(w.mustConc(a[0]))
		if !v.dirs[p] {
			return vInt(2)
		}
		old := v.cwd
		v.cwd = p
		w.journal = append(w.journal, undo{f: func() { v.cwd = old }})
		return vInt(0)
	})
	in("vGetwd", func(w *Worker, a []Value) Value { return vStr(w.vfs.cwd) })
	in("vStat", func(w *Worker, a []Value) Value { // (path) (size, isdir, errno)
		v := w.vfs
		p := v.abs(w.mustConc(a[0]))
		if v.dirs[p] {
			return tup(vInt(0), vBool(true), vInt(0))
		}
		if s, ok := v.files[p]; ok {
			return tup(vInt(int64(len(s.s))), vBool(false), vInt(0))
		}
		return tup(vInt(0), vBool(false), vInt(2))
	})
}
