//go:build go1.22

// Package models holds Go-source models of library functions that the symbolic
// executor runs instead of the originals (reflection, file system, pools).
// The m*/v* functions are implemented by the executor.
package models

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"reflect"
	"sync"
	"syscall"
	"text/template"
	"text/template/parse"
	"time"
	"unsafe"

	"github.com/sirupsen/logrus"
)

type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return "runtime error: " + e.Msg }
func (e RuntimeError) RuntimeError() {}

func mField(x any, name string) (any, int)                   { panic("engine") }
func mHasMethod(x any, name string) bool                     { panic("engine") }
func mCallMethod(x any, name string, args []any) (any, error) { panic("engine") }
func mCall(fn any, args []any) (any, error)                  { panic("engine") }
func mTruth(x any) bool                                      { panic("engine") }
func mLen(x any) int                                         { panic("engine") }
func mIndex(x any, i int) (any, bool)                        { panic("engine") }
func mMapKeys(x any) []any                                   { panic("engine") }
func mMapGet(x any, k any) (any, bool)                       { panic("engine") }
func mKind(x any) int                                        { panic("engine") }
func mDeref(x any) (any, bool)                               { panic("engine") }
func mFieldAt(x any, i int) (any, string, bool)              { panic("engine") }
func mBasic(x any) any                                       { panic("engine") }
func mTypeName(x any) string                                 { panic("engine") }
func mIsNil(x any) bool                                      { panic("engine") }
func mEq(a, b any) (bool, bool)                              { panic("engine") }
func mUnreflect(v reflect.Value) any                         { panic("engine") }
func mState(p unsafe.Pointer) fmt.State                      { panic("engine") }
func mCacheGet(k string) (any, bool)                         { panic("engine") }
func mCachePut(k string, v any)                              { panic("engine") }
func mSideGet(p unsafe.Pointer, k string) (any, bool)        { panic("engine") }
func mSidePut(p unsafe.Pointer, k string, v any)             { panic("engine") }
func mUnsupported(msg string)                                { panic("engine") }

const (
	kBool = iota
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
)

// ---- fmt

func fmt_pp_printValue(p unsafe.Pointer, v reflect.Value, verb rune, depth int) {
	s := mState(p)
	fmtAny(s, mUnreflect(v), verb, depth)
}

func fmtAny(s fmt.State, x any, verb rune, depth int) {
	plus := s.Flag('+')
	if depth > 0 && x != nil {
		switch y := x.(type) {
		case error:
			io.WriteString(s, y.Error())
			return
		case fmt.Stringer:
			io.WriteString(s, y.String())
			return
		}
	}
	switch mKind(x) {
	case -1:
		io.WriteString(s, "<nil>")
	case kBool, kInt, kFloat, kString:
		f := "%"
		for _, c := range "+-# 0" {
			if s.Flag(int(c)) {
				f += string(c)
			}
		}
		fmt.Fprintf(s, f+string(verb), mBasic(x))
	case kStruct:
		io.WriteString(s, "{")
		for i := 0; ; i++ {
			f, n, ok := mFieldAt(x, i)
			if !ok {
				break
			}
			if i > 0 {
				io.WriteString(s, " ")
			}
			if plus {
				io.WriteString(s, n+":")
			}
			fmtAny(s, f, verb, depth+1)
		}
		io.WriteString(s, "}")
	case kMap:
		io.WriteString(s, "map[")
		for i, k := range mMapKeys(x) {
			if i > 0 {
				io.WriteString(s, " ")
			}
			fmtAny(s, k, verb, depth+1)
			io.WriteString(s, ":")
			v, _ := mMapGet(x, k)
			fmtAny(s, v, verb, depth+1)
		}
		io.WriteString(s, "]")
	case kSlice, kArray:
		io.WriteString(s, "[")
		n := mLen(x)
		for i := 0; i < n; i++ {
			if i > 0 {
				io.WriteString(s, " ")
			}
			e, _ := mIndex(x, i)
			fmtAny(s, e, verb, depth+1)
		}
		io.WriteString(s, "]")
	case kPtr:
		e, ok := mDeref(x)
		if !ok {
			io.WriteString(s, "<nil>")
			return
		}
		if depth == 0 {
			switch mKind(e) {
			case kStruct, kSlice, kArray, kMap:
				io.WriteString(s, "&")
				fmtAny(s, e, verb, depth+1)
				return
			}
		}
		io.WriteString(s, "0xc000000000")
	default:
		io.WriteString(s, "0xc000000000")
	}
}

// ---- sync.Pool

func sync_Pool_Get(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}

func sync_Pool_Put(p *sync.Pool, x any) {}

// ---- os

func bind(name string, h int) *os.File {
	f := new(os.File)
	mSidePut(unsafe.Pointer(f), "h", h)
	mSidePut(unsafe.Pointer(f), "name", name)
	return f
}

func handle(f *os.File) (int, string, bool) {
	if f == nil {
		return 0, "", false
	}
	h, ok := mSideGet(unsafe.Pointer(f), "h")
	if !ok {
		return 0, "", false
	}
	n, _ := mSideGet(unsafe.Pointer(f), "name")
	return h.(int), n.(string), true
}

func vOpen(path string, create bool) (int, int)  { panic("engine") }
func vRead(h int, b []byte) (int, int)           { panic("engine") }
func vWrite(h int, b []byte) (int, int)          { panic("engine") }
func vClose(h int) int                           { panic("engine") }
func vChdir(p string) int                        { panic("engine") }
func vGetwd() string                             { panic("engine") }
func vStat(p string) (int, bool, int)            { panic("engine") }

func perr(op, path string, errno int) error {
	return &fs.PathError{Op: op, Path: path, Err: syscall.Errno(errno)}
}

func os_Open(name string) (*os.File, error) {
	h, e := vOpen(name, false)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return bind(name, h), nil
}

func os_Create(name string) (*os.File, error) {
	h, e := vOpen(name, true)
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return bind(name, h), nil
}

func os_File_Read(f *os.File, b []byte) (int, error) {
	h, name, ok := handle(f)
	if !ok {
		return 0, os.ErrInvalid
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, e := vRead(h, b)
	if e != 0 {
		return 0, perr("read", name, e)
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func os_File_Write(f *os.File, b []byte) (int, error) {
	h, name, ok := handle(f)
	if !ok {
		return 0, os.ErrInvalid
	}
	n, e := vWrite(h, b)
	if e != 0 {
		return 0, perr("write", name, e)
	}
	return n, nil
}

func os_File_WriteString(f *os.File, s string) (int, error) { return os_File_Write(f, []byte(s)) }

func os_File_Close(f *os.File) error {
	h, name, ok := handle(f)
	if !ok {
		return os.ErrInvalid
	}
	if e := vClose(h); e != 0 {
		return perr("close", name, e)
	}
	return nil
}

func os_File_Name(f *os.File) string {
	_, n, _ := handle(f)
	return n
}

func os_Chdir(p string) error {
	if e := vChdir(p); e != 0 {
		return perr("chdir", p, e)
	}
	return nil
}

func os_Getwd() (string, error) { return vGetwd(), nil }

type fileInfo struct {
	name string
	size int
	dir  bool
}

func (f *fileInfo) Name() string       { return f.name }
func (f *fileInfo) Size() int64        { return int64(f.size) }
func (f *fileInfo) Mode() fs.FileMode  { return 0o644 }
func (f *fileInfo) ModTime() time.Time { return time.Unix(1700000000, 0).UTC() }
func (f *fileInfo) IsDir() bool        { return f.dir }
func (f *fileInfo) Sys() any           { return nil }

func os_Stat(p string) (os.FileInfo, error) {
	n, d, e := vStat(p)
	if e != 0 {
		return nil, perr("stat", p, e)
	}
	return &fileInfo{p, n, d}, nil
}

func os_ReadFile(p string) ([]byte, error) {
	f, err := os_Open(p)
	if err != nil {
		return nil, err
	}
	defer os_File_Close(f)
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := os_File_Read(f, buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func os_Getenv(k string) string { return "" }

func os_LookupEnv(k string) (string, bool) { return "", false }

// ---- errors.As (used through github.com/pkg/errors)

var errUnsupported = errors.New("unsupported")

// ---- text/template

type tmplErr struct{ msg string }

func (e *tmplErr) Error() string { return e.msg }

func tmpl_Funcs(t *template.Template, m template.FuncMap) *template.Template {
	mSidePut(unsafe.Pointer(t), "funcs", m)
	return t
}

func tmpl_Parse(t *template.Template, text string) (*template.Template, error) {
	if c, ok := mCacheGet("tmpl:" + text); ok {
		t.Tree = c.(*parse.Tree)
		return t, nil
	}
	tr := parse.New("tmpl")
	tr.Mode = parse.SkipFuncCheck
	set := map[string]*parse.Tree{}
	tree, err := tr.Parse(text, "{{", "}}", set)
	if err != nil {
		return nil, err
	}
	for n, x := range set {
		mCachePut("def:"+n, x)
	}
	mCachePut("tmpl:"+text, tree)
	t.Tree = tree
	return t, nil
}

type tstate struct {
	wr    io.Writer
	vars  []tvar
	funcs template.FuncMap
	depth int
}

type tvar struct {
	name string
	val  any
}

type noValue struct{}

func tmpl_Execute(t *template.Template, wr io.Writer, data any) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*tmplErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	if t == nil || t.Tree == nil {
		return &tmplErr{"template: incomplete or empty template"}
	}
	s := &tstate{wr: wr, vars: []tvar{{"$", data}}}
	if f, ok := mSideGet(unsafe.Pointer(t), "funcs"); ok {
		s.funcs = f.(template.FuncMap)
	}
	s.walk(data, t.Tree.Root)
	return nil
}

func (s *tstate) errorf(msg string) { panic(&tmplErr{"template: " + msg}) }

func (s *tstate) walk(dot any, n parse.Node) {
	switch n := n.(type) {
	case *parse.ListNode:
		for _, c := range n.Nodes {
			s.walk(dot, c)
		}
	case *parse.TextNode:
		if _, err := s.wr.Write(n.Text); err != nil {
			panic(&tmplErr{err.Error()})
		}
	case *parse.ActionNode:
		v := s.evalPipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			s.print(v)
		}
	case *parse.CommentNode:
	case *parse.IfNode:
		s.ifOrWith(false, dot, n.Pipe, n.List, n.ElseList)
	case *parse.WithNode:
		s.ifOrWith(true, dot, n.Pipe, n.List, n.ElseList)
	case *parse.RangeNode:
		s.walkRange(dot, n)
	case *parse.TemplateNode:
		x, ok := mCacheGet("def:" + n.Name)
		if !ok {
			s.errorf("template not defined: " + n.Name)
		}
		d := s.evalPipe(dot, n.Pipe)
		ns := &tstate{wr: s.wr, vars: []tvar{{"$", d}}, funcs: s.funcs, depth: s.depth + 1}
		ns.walk(d, x.(*parse.Tree).Root)
	default:
		mUnsupported("template node")
	}
}

func (s *tstate) ifOrWith(with bool, dot any, pipe *parse.PipeNode, list, elseList *parse.ListNode) {
	mark := len(s.vars)
	v := s.evalPipe(dot, pipe)
	if mTruth(unwrap(v)) {
		if with {
			s.walk(v, list)
		} else {
			s.walk(dot, list)
		}
	} else if elseList != nil {
		s.walk(dot, elseList)
	}
	s.vars = s.vars[:mark]
}

func unwrap(v any) any {
	if _, ok := v.(noValue); ok {
		return nil
	}
	return v
}

func (s *tstate) walkRange(dot any, n *parse.RangeNode) {
	mark := len(s.vars)
	// the variables are declared by the range itself
	v := unwrap(s.evalCmds(dot, n.Pipe))
	base := len(s.vars)
	one := func(k, e any) {
		if len(n.Pipe.Decl) == 1 {
			s.vars = append(s.vars, tvar{n.Pipe.Decl[0].Ident[0], e})
		} else if len(n.Pipe.Decl) == 2 {
			s.vars = append(s.vars, tvar{n.Pipe.Decl[0].Ident[0], k}, tvar{n.Pipe.Decl[1].Ident[0], e})
		}
		s.walk(e, n.List)
		s.vars = s.vars[:base]
	}
	switch mKind(v) {
	case kSlice, kArray:
		l := mLen(v)
		if l > 0 {
			for i := 0; i < l; i++ {
				e, _ := mIndex(v, i)
				one(i, e)
			}
			s.vars = s.vars[:mark]
			return
		}
	case kMap:
		ks := mMapKeys(v)
		if len(ks) > 0 {
			for _, k := range ks {
				e, _ := mMapGet(v, k)
				one(k, e)
			}
			s.vars = s.vars[:mark]
			return
		}
	case -1:
	default:
		mUnsupported("template range over " + mTypeName(v))
	}
	if n.ElseList != nil {
		s.walk(dot, n.ElseList)
	}
	s.vars = s.vars[:mark]
}

func (s *tstate) evalPipe(dot any, p *parse.PipeNode) any {
	if p == nil {
		return nil
	}
	v := s.evalCmds(dot, p)
	for _, d := range p.Decl {
		if p.IsAssign {
			for i := len(s.vars) - 1; i >= 0; i-- {
				if s.vars[i].name == d.Ident[0] {
					s.vars[i].val = v
					break
				}
			}
		} else {
			s.vars = append(s.vars, tvar{d.Ident[0], v})
		}
	}
	return v
}

type missing struct{}

func (s *tstate) evalCmds(dot any, p *parse.PipeNode) any {
	var v any = missing{}
	for _, c := range p.Cmds {
		v = s.evalCmd(dot, c, v)
	}
	return v
}

func (s *tstate) evalCmd(dot any, c *parse.CommandNode, final any) any {
	first := c.Args[0]
	_, noFinal := final.(missing)
	switch n := first.(type) {
	case *parse.FieldNode:
		return s.chain(dot, dot, n.Ident, c.Args[1:], final)
	case *parse.ChainNode:
		v := s.evalArg(dot, n.Node)
		return s.chain(dot, v, n.Field, c.Args[1:], final)
	case *parse.IdentifierNode:
		return s.call(dot, n.Ident, c.Args[1:], final)
	case *parse.PipeNode:
		return s.evalPipe(dot, n)
	case *parse.VariableNode:
		v := s.lookupVar(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return s.chain(dot, v, n.Ident[1:], c.Args[1:], final)
	}
	if len(c.Args) > 1 || !noFinal {
		s.errorf("can't give argument to non-function")
	}
	return s.evalArg(dot, first)
}

func (s *tstate) lookupVar(name string) any {
	for i := len(s.vars) - 1; i >= 0; i-- {
		if s.vars[i].name == name {
			return s.vars[i].val
		}
	}
	s.errorf("undefined variable: " + name)
	return nil
}

func (s *tstate) evalArg(dot any, n parse.Node) any {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return nil
	case *parse.FieldNode:
		return s.chain(dot, dot, n.Ident, nil, missing{})
	case *parse.VariableNode:
		v := s.lookupVar(n.Ident[0])
		if len(n.Ident) == 1 {
			return v
		}
		return s.chain(dot, v, n.Ident[1:], nil, missing{})
	case *parse.PipeNode:
		return s.evalPipe(dot, n)
	case *parse.IdentifierNode:
		return s.call(dot, n.Ident, nil, missing{})
	case *parse.ChainNode:
		v := s.evalArg(dot, n.Node)
		return s.chain(dot, v, n.Field, nil, missing{})
	case *parse.BoolNode:
		return n.True
	case *parse.StringNode:
		return n.Text
	case *parse.NumberNode:
		if n.IsInt {
			return int(n.Int64)
		}
		return n.Float64
	}
	mUnsupported("template argument")
	return nil
}

func (s *tstate) chain(dot, v any, idents []string, args []parse.Node, final any) any {
	for i, id := range idents {
		v = unwrap(v)
		last := i == len(idents)-1
		if v != nil && mHasMethod(v, id) {
			var as []any
			if last {
				for _, a := range args {
					as = append(as, unwrap(s.evalArg(dot, a)))
				}
				if _, no := final.(missing); !no {
					as = append(as, unwrap(final))
				}
			}
			r, err := mCallMethod(v, id, as)
			if err != nil {
				s.errorf("error calling " + id + ": " + err.Error())
			}
			v = r
			continue
		}
		if v == nil {
			s.errorf("nil data; no entry for key " + id)
		}
		f, k := mField(v, id)
		switch k {
		case 0:
			s.errorf("can't evaluate field " + id + " in type " + mTypeName(v))
		case 1:
			v = f
		case 2:
			v = noValue{}
		case 3:
			s.errorf("nil pointer evaluating " + mTypeName(v) + "." + id)
		}
	}
	return v
}

func (s *tstate) call(dot any, name string, args []parse.Node, final any) any {
	_, noFinal := final.(missing)
	switch name {
	case "and", "or":
		var v any
		n := len(args)
		for i := 0; i <= n; i++ {
			if i < n {
				v = s.evalArg(dot, args[i])
			} else if !noFinal {
				v = final
			} else {
				break
			}
			if mTruth(unwrap(v)) == (name == "or") {
				return v
			}
		}
		return v
	}
	var as []any
	for _, a := range args {
		as = append(as, unwrap(s.evalArg(dot, a)))
	}
	if !noFinal {
		as = append(as, unwrap(final))
	}
	if f, ok := s.funcs[name]; ok {
		r, err := mCall(f, as)
		if err != nil {
			s.errorf("error calling " + name + ": " + err.Error())
		}
		return r
	}
	switch name {
	case "not":
		return !mTruth(as[0])
	case "len":
		n := mLen(as[0])
		if n < 0 {
			s.errorf("error calling len")
		}
		return n
	case "index":
		v := as[0]
		for _, k := range as[1:] {
			switch mKind(v) {
			case kMap:
				x, ok := mMapGet(v, k)
				if !ok {
					return noValue{}
				}
				v = x
			case kSlice, kArray, kString:
				i, _ := mBasic(k).(int64)
				if i < 0 || int(i) >= mLen(v) {
					s.errorf("error calling index: index out of range")
				}
				x, _ := mIndex(v, int(i))
				v = x
			default:
				s.errorf("error calling index of " + mTypeName(v))
			}
		}
		return v
	case "eq":
		for _, y := range as[1:] {
			r, ok := mEq(as[0], y)
			if !ok {
				s.errorf("error calling eq: incompatible types for comparison")
			}
			if r {
				return true
			}
		}
		return false
	case "ne":
		r, ok := mEq(as[0], as[1])
		if !ok {
			s.errorf("error calling ne: incompatible types for comparison")
		}
		return !r
	case "gt", "lt", "ge", "le":
		a, ok1 := mBasic(as[0]).(int64)
		b, ok2 := mBasic(as[1]).(int64)
		if !ok1 || !ok2 {
			mUnsupported("template " + name)
		}
		switch name {
		case "gt":
			return a > b
		case "lt":
			return a < b
		case "ge":
			return a >= b
		}
		return a <= b
	case "printf":
		return fmt.Sprintf(as[0].(string), as[1:]...)
	case "print":
		return fmt.Sprint(as...)
	case "html":
		return template.HTMLEscapeString(fmt.Sprint(as...))
	}
	s.errorf("function " + name + " not defined")
	return nil
}

func (s *tstate) print(v any) {
	switch x := v.(type) {
	case noValue:
		io.WriteString(s.wr, "<no value>")
		return
	case nil:
		io.WriteString(s.wr, "<no value>")
		return
	case error, fmt.Stringer:
		fmt.Fprint(s.wr, x)
		return
	case string:
		io.WriteString(s.wr, x)
		return
	}
	if mKind(v) == kString {
		io.WriteString(s.wr, mBasic(v).(string))
		return
	}
	if mKind(v) == kPtr {
		if mIsNil(v) {
			io.WriteString(s.wr, "<nil>")
			return
		}
		if e, ok := mDeref(v); ok {
			s.print(e)
			return
		}
	}
	fmt.Fprint(s.wr, v)
}

func strings_LastIndex(s, sep string) int {
	for i := len(s) - len(sep); i >= 0; i-- {
		if s[i:i+len(sep)] == sep {
			return i
		}
	}
	return -1
}


// errors logged (the entries themselves are not modelled)

var (
	loggedErrors []string
	loggedMutex  sync.Mutex
)

func logError(msg string) {
	loggedMutex.Lock()
	loggedErrors = append(loggedErrors, msg)
	loggedMutex.Unlock()
}

func logrus_Error(args ...interface{})                        { logError(fmt.Sprint(args...)) }
func logrus_Errorf(format string, args ...interface{})        { logError(fmt.Sprintf(format, args...)) }
func logrus_Entry_Error(e *logrus.Entry, args ...interface{}) { logError(fmt.Sprint(args...)) }
func logrus_Entry_Errorf(e *logrus.Entry, format string, args ...interface{}) {
	logError(fmt.Sprintf(format, args...))
}
func sym_Errors() []string { return loggedErrors }
