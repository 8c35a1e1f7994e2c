package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/types/typeutil"
)

type engineErr string

func (e engineErr) Error() string { return string(e) }

// Value is a machine value. Scalars: n (canonical: sign- or zero-extended to 64 bits)
// or a *Term in o. Everything else keeps its reference in o.
type Value struct {
	n uint64
	o any
}

type Str struct {
	s string
	t []*Term // nil when fully concrete; else len(t)==len(s), nil entries are concrete
}

var emptyStr = &Str{}

type Obj struct {
	vals  []Value
	bytes []byte
	bsym  []*Term
	epoch uint32
	race  *raceShadow
}

func (o *Obj) size() int {
	if o.bytes != nil {
		return len(o.bytes)
	}
	return len(o.vals)
}

type Slice struct {
	obj           *Obj
	off, len, cap int
	esz           int
}

type Iface struct {
	t *RType
	v Value
}

type Agg struct{ v []Value }

type Tuple []Value

type Closure struct {
	fn    *Func
	binds []Value
	nat   *natMethod // native pseudo function
}

type natMethod struct {
	name string
	f    func(w *Worker, args []Value) Value
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	epoch  uint32
	hb     []vclock // per element clocks
	chb    vclock   // close clock
	rhb    []vclock
	id     int
}

type Map struct {
	kt, vt *RType
	keys   []Value
	vals   []Value
	live   []bool
	idx    map[any]int
	n      int
	nsym   int
	epoch  uint32
	race   *raceShadow
}

type MapIter struct {
	m     *Map
	order []int // explicit order (nil: insertion)
	rev   []int // reverse order
	pos   int
	str   *Str
	isStr bool
	epoch uint32
}

// ---- types

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KUnsafe
	KTuple
)

type RType struct {
	t      types.Type
	id     int
	kind   Kind
	w      uint8 // int width
	signed bool
	slots  int
	elem   *RType
	key    *RType
	fields []*RType
	offs   []int
	fnames []string
	alen   int
	isByte bool
	named  bool
	name   string
	impl   map[*types.Interface]bool
	meth   map[string]*Func
	isErr  bool
}

type TypeTable struct {
	m    typeutil.Map
	list []*RType
}

func (tt *TypeTable) get(t types.Type) *RType {
	t = types.Unalias(t)
	if r := tt.m.At(t); r != nil {
		return r.(*RType)
	}
	r := &RType{t: t, id: len(tt.list), impl: map[*types.Interface]bool{}, meth: map[string]*Func{}}
	tt.list = append(tt.list, r)
	tt.m.Set(t, r)
	_, r.named = t.(*types.Named)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		r.slots = 1
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			r.kind = KBool
		case types.String, types.UntypedString:
			r.kind = KString
		case types.Int, types.Int64, types.UntypedInt:
			r.kind, r.w, r.signed = KInt, 64, true
		case types.Int8:
			r.kind, r.w, r.signed = KInt, 8, true
		case types.Int16:
			r.kind, r.w, r.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			r.kind, r.w, r.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			r.kind, r.w = KInt, 64
		case types.Uint8:
			r.kind, r.w, r.isByte = KInt, 8, true
		case types.Uint16:
			r.kind, r.w = KInt, 16
		case types.Uint32:
			r.kind, r.w = KInt, 32
		case types.Float64, types.UntypedFloat:
			r.kind, r.w = KFloat, 64
		case types.Float32:
			r.kind, r.w = KFloat, 32
		case types.Complex128, types.Complex64, types.UntypedComplex:
			r.kind = KComplex
		case types.UnsafePointer:
			r.kind = KUnsafe
		case types.UntypedNil:
			r.kind = KPtr
		default:
			r.kind = KUnsafe
		}
	case *types.Pointer:
		r.kind, r.slots = KPtr, 1
		r.elem = tt.get(u.Elem())
	case *types.Slice:
		r.kind, r.slots = KSlice, 1
		r.elem = tt.get(u.Elem())
	case *types.Map:
		r.kind, r.slots = KMap, 1
		r.key = tt.get(u.Key())
		r.elem = tt.get(u.Elem())
	case *types.Chan:
		r.kind, r.slots = KChan, 1
		r.elem = tt.get(u.Elem())
	case *types.Signature:
		r.kind, r.slots = KFunc, 1
	case *types.Interface:
		r.kind, r.slots = KIface, 1
	case *types.Struct:
		r.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := tt.get(u.Field(i).Type())
			r.fields = append(r.fields, f)
			r.offs = append(r.offs, off)
			r.fnames = append(r.fnames, u.Field(i).Name())
			off += f.slots
		}
		r.slots = off
	case *types.Array:
		r.kind = KArray
		r.elem = tt.get(u.Elem())
		r.alen = int(u.Len())
		r.slots = r.alen * r.elem.slots
	case *types.Tuple:
		r.kind, r.slots = KTuple, 1
	case *types.TypeParam:
		r.kind, r.slots = KUnsafe, 1
	default:
		panic(engineErr(fmt.Sprintf("type %T", u)))
	}
	return r
}

func (r *RType) String() string {
	if r == nil {
		return "<nil>"
	}
	if r.name == "" {
		r.name = types.TypeString(r.t, func(p *types.Package) string { return p.Name() })
		r.name = strings.ReplaceAll(r.name, "any", "interface {}")
	}
	return r.name
}

func (r *RType) isAgg() bool { return r.kind == KStruct || r.kind == KArray }

// ---- constructors

func vInt(i int64) Value     { return Value{n: uint64(i)} }
func vBool(b bool) Value     { return Value{n: b2u(b)} }
func vStr(s string) Value    { return Value{o: &Str{s: s}} }
func vFloat(f float64) Value { return Value{n: math.Float64bits(f)} }
func vTerm(t *Term) Value    { return Value{o: t} }
func (v Value) f64() float64 { return math.Float64frombits(v.n) }
func (v Value) isNil() bool  { return v.o == nil }

// vBV wraps a term of the given int type, folding constants.
func vBV(t *Term, signed bool) Value {
	if t.op == OConst {
		if t.w == 0 {
			return Value{n: t.k}
		}
		if signed {
			return Value{n: uint64(sext(t.k, t.w))}
		}
		return Value{n: t.k}
	}
	return Value{o: t}
}

func str(v Value) *Str {
	if v.o == nil {
		return emptyStr
	}
	return v.o.(*Str)
}

func vS(s *Str) Value { return Value{o: s} }

func (s *Str) sub(i, j int) *Str {
	if s.t == nil {
		return &Str{s: s.s[i:j]}
	}
	t := s.t[i:j]
	for _, x := range t {
		if x != nil {
			return &Str{s: s.s[i:j], t: t}
		}
	}
	return &Str{s: s.s[i:j]}
}

func concatStr(a, b *Str) *Str {
	if len(a.s) == 0 {
		return b
	}
	if len(b.s) == 0 {
		return a
	}
	r := &Str{s: a.s + b.s}
	if a.t != nil || b.t != nil {
		r.t = make([]*Term, len(r.s))
		copy(r.t, a.t)
		if b.t != nil {
			copy(r.t[len(a.s):], b.t)
		}
	}
	return r
}

func (s *Str) at(i int) Value {
	if s.t != nil && s.t[i] != nil {
		return Value{o: s.t[i]}
	}
	return Value{n: uint64(s.s[i])}
}

// byteTerm returns the term of byte i
func (w *Worker) byteTerm(s *Str, i int) *Term {
	if s.t != nil && s.t[i] != nil {
		return s.t[i]
	}
	return w.tt.Const(8, uint64(s.s[i]))
}

func (w *Worker) term(v Value, width uint8) *Term {
	if t, ok := v.o.(*Term); ok {
		return t
	}
	return w.tt.Const(width, v.n)
}

func (w *Worker) boolTerm(v Value) *Term {
	if t, ok := v.o.(*Term); ok {
		return t
	}
	return w.tt.Bool(v.n != 0)
}

// ---- objects

func (w *Worker) newObj(n int) *Obj { return &Obj{vals: make([]Value, n), epoch: w.epoch} }

func (w *Worker) newByteObj(b []byte, t []*Term) *Obj {
	o := &Obj{bytes: b, epoch: w.epoch}
	if b == nil {
		o.bytes = []byte{}
	}
	if t != nil {
		o.bsym = t
	}
	return o
}

// newElemObj allocates backing storage for n elements of type r.
func (w *Worker) newElemObj(r *RType, n int) *Obj {
	if r.isByte {
		return &Obj{bytes: make([]byte, n), epoch: w.epoch}
	}
	return w.newObj(n * r.slots)
}

func (w *Worker) allocType(r *RType) *Obj {
	if r.kind == KArray && r.elem.isByte {
		return &Obj{bytes: make([]byte, r.alen), epoch: w.epoch}
	}
	return w.newObj(r.slots)
}

func (o *Obj) get(i int) Value {
	if o.bytes != nil {
		if o.bsym != nil && o.bsym[i] != nil {
			return Value{o: o.bsym[i]}
		}
		return Value{n: uint64(o.bytes[i])}
	}
	return o.vals[i]
}

type undo struct {
	obj *Obj
	i   int
	v   Value
	f   func()
}

func (w *Worker) set(o *Obj, i int, v Value) {
	if o.epoch != w.epoch {
		w.journal = append(w.journal, undo{obj: o, i: i, v: o.get(i)})
	}
	o.raw(i, v)
}

func (o *Obj) raw(i int, v Value) {
	if o.bytes != nil {
		if t, ok := v.o.(*Term); ok {
			if o.bsym == nil {
				o.bsym = make([]*Term, len(o.bytes))
			}
			o.bsym[i] = t
			return
		}
		if o.bsym != nil {
			o.bsym[i] = nil
		}
		o.bytes[i] = byte(v.n)
		return
	}
	o.vals[i] = v
}

func (w *Worker) undoTo(mark int) {
	for i := len(w.journal) - 1; i >= mark; i-- {
		u := &w.journal[i]
		if u.f != nil {
			u.f()
		} else {
			u.obj.raw(u.i, u.v)
		}
		w.journal[i] = undo{}
	}
	w.journal = w.journal[:mark]
}

// load reads a value of type r at (o, off)
func (w *Worker) load(o *Obj, off int, r *RType) Value {
	if o == nil {
		panic(goPanic{kind: "nil"})
	}
	if r.isAgg() {
		a := make([]Value, r.slots)
		if o.bytes != nil {
			for i := range a {
				a[i] = o.get(off + i)
			}
		} else {
			copy(a, o.vals[off:off+r.slots])
		}
		return Value{o: &Agg{a}}
	}
	return o.get(off)
}

func (w *Worker) store(o *Obj, off int, r *RType, v Value) {
	if o == nil {
		panic(goPanic{kind: "nil"})
	}
	if r.isAgg() {
		if v.o == nil { // zero
			for i := 0; i < r.slots; i++ {
				w.set(o, off+i, Value{})
			}
			return
		}
		a := v.o.(*Agg).v
		for i := 0; i < r.slots; i++ {
			w.set(o, off+i, a[i])
		}
		return
	}
	w.set(o, off, v)
}

func aggSlots(v Value, r *RType) []Value {
	if v.o == nil {
		return make([]Value, r.slots)
	}
	return v.o.(*Agg).v
}

// aggGet extracts a component
func aggGet(v Value, off int, r *RType) Value {
	if v.o == nil {
		return Value{}
	}
	a := v.o.(*Agg).v
	if r.isAgg() {
		return Value{o: &Agg{a[off : off+r.slots : off+r.slots]}}
	}
	return a[off]
}

func (w *Worker) strToBytes(s *Str) *Slice {
	n := len(s.s)
	if n == 0 {
		return &Slice{obj: w.newByteObj([]byte{}, nil), esz: 1}
	}
	var t []*Term
	if s.t != nil {
		t = append([]*Term(nil), s.t...)
	}
	return &Slice{obj: w.newByteObj([]byte(s.s), t), len: n, cap: n, esz: 1}
}

func bytesToStr(sl *Slice) *Str {
	if sl == nil || sl.len == 0 {
		return emptyStr
	}
	return objStr(sl.obj, sl.off, sl.len)
}

func objStr(o *Obj, off, n int) *Str {
	if o.bytes != nil {
		r := &Str{s: string(o.bytes[off : off+n])}
		if o.bsym != nil {
			for _, x := range o.bsym[off : off+n] {
				if x != nil {
					r.t = append([]*Term(nil), o.bsym[off:off+n]...)
					break
				}
			}
		}
		return r
	}
	b := make([]byte, n)
	var t []*Term
	for i := 0; i < n; i++ {
		v := o.vals[off+i]
		if x, ok := v.o.(*Term); ok {
			if t == nil {
				t = make([]*Term, n)
			}
			t[i] = x
		} else {
			b[i] = byte(v.n)
		}
	}
	return &Str{s: string(b), t: t}
}

func sl(v Value) *Slice {
	if v.o == nil {
		return nil
	}
	return v.o.(*Slice)
}

func slen(v Value) int {
	if v.o == nil {
		return 0
	}
	return v.o.(*Slice).len
}

// strEq returns the term for equality of two strings.
func (w *Worker) strEq(a, b *Str) *Term {
	if len(a.s) != len(b.s) {
		return w.tt.F
	}
	if a.t == nil && b.t == nil {
		return w.tt.Bool(a.s == b.s)
	}
	r := w.tt.T
	for i := 0; i < len(a.s); i++ {
		var c *Term
		as, bs := a.t != nil && a.t[i] != nil, b.t != nil && b.t[i] != nil
		if !as && !bs {
			if a.s[i] != b.s[i] {
				return w.tt.F
			}
			continue
		}
		c = w.tt.Bin(OEq, w.byteTerm(a, i), w.byteTerm(b, i))
		switch w.quick(c) {
		case 0:
			return w.tt.F
		case 1:
			continue
		}
		r = w.tt.And(r, c)
	}
	return r
}

// eq builds the equality term of two values of type r
func (w *Worker) eq(r *RType, a, b Value) *Term {
	switch r.kind {
	case KBool:
		return w.tt.Bin(OEq, w.boolTerm(a), w.boolTerm(b))
	case KInt:
		if a.o == nil && b.o == nil {
			return w.tt.Bool(a.n == b.n)
		}
		return w.tt.Bin(OEq, w.term(a, r.w), w.term(b, r.w))
	case KFloat:
		return w.tt.Bool(a.f64() == b.f64())
	case KString:
		return w.strEq(str(a), str(b))
	case KIface:
		if a.o == nil || b.o == nil {
			return w.tt.Bool(a.o == nil && b.o == nil)
		}
		x, y := a.o.(*Iface), b.o.(*Iface)
		if x.t != y.t {
			return w.tt.F
		}
		switch x.t.kind {
		case KSlice, KMap, KFunc:
			panic(goPanic{kind: "rt", msg: "comparing uncomparable type " + x.t.String()})
		}
		return w.eq(x.t, x.v, y.v)
	case KStruct:
		res := w.tt.T
		for i, f := range r.fields {
			res = w.tt.And(res, w.eq(f, aggGet(a, r.offs[i], f), aggGet(b, r.offs[i], f)))
			if res == w.tt.F {
				return res
			}
		}
		return res
	case KArray:
		res := w.tt.T
		for i := 0; i < r.alen; i++ {
			o := i * r.elem.slots
			res = w.tt.And(res, w.eq(r.elem, aggGet(a, o, r.elem), aggGet(b, o, r.elem)))
		}
		return res
	case KSlice, KFunc: // only against nil
		return w.tt.Bool(a.o == nil && b.o == nil)
	default: // pointers, maps, chans, unsafe
		return w.tt.Bool(a.o == b.o && a.n == b.n)
	}
}

// ---- maps

type ikey struct {
	t *RType
	k any
}

type pkey struct {
	o any
	n uint64
}

// hkey returns a Go-comparable key for concrete keys; ok=false when symbolic.
func hkey(r *RType, v Value) (any, bool) {
	switch r.kind {
	case KString:
		s := str(v)
		if s.t != nil {
			return nil, false
		}
		return s.s, true
	case KInt, KBool, KFloat:
		if v.o != nil {
			return nil, false
		}
		return v.n, true
	case KIface:
		if v.o == nil {
			return nil, true
		}
		i := v.o.(*Iface)
		switch i.t.kind {
		case KSlice, KMap, KFunc:
			panic(goPanic{kind: "rt", msg: "hash of unhashable type " + i.t.String()})
		}
		k, ok := hkey(i.t, i.v)
		return ikey{i.t, k}, ok
	case KStruct:
		sb := ""
		for i, f := range r.fields {
			k, ok := hkey(f, aggGet(v, r.offs[i], f))
			if !ok {
				return nil, false
			}
			sb += fmt.Sprintf("%T:%v|", k, k)
		}
		return sb, true
	case KArray:
		sb := ""
		for i := 0; i < r.alen; i++ {
			k, ok := hkey(r.elem, aggGet(v, i*r.elem.slots, r.elem))
			if !ok {
				return nil, false
			}
			sb += fmt.Sprintf("%T:%v|", k, k)
		}
		return sb, true
	default:
		return pkey{v.o, v.n}, true
	}
}

func (w *Worker) newMap(kt, vt *RType) *Map {
	return &Map{kt: kt, vt: vt, idx: map[any]int{}, epoch: w.epoch}
}

// find returns the index of key or -1; may decide (fork) on symbolic keys.
func (w *Worker) mapFind(m *Map, k Value) int {
	hk, conc := hkey(m.kt, k)
	if conc {
		if i, ok := m.idx[hk]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if conc {
			if _, c2 := hkey(m.kt, m.keys[i]); c2 {
				continue
			}
		}
		t := w.eq(m.kt, k, m.keys[i])
		if t == w.tt.F {
			continue
		}
		if w.decide(t) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *Map, k, v Value) {
	i := w.mapFind(m, k)
	w.raceMap(m, true)
	if i >= 0 {
		if m.epoch != w.epoch {
			old := m.vals[i]
			w.journal = append(w.journal, undo{f: func() { m.vals[i] = old }})
		}
		m.vals[i] = v
		return
	}
	hk, conc := hkey(m.kt, k)
	i = len(m.keys)
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.live = append(m.live, true)
	m.n++
	if conc {
		m.idx[hk] = i
	} else {
		m.nsym++
	}
	if m.epoch != w.epoch {
		w.journal = append(w.journal, undo{f: func() {
			m.keys = m.keys[:i]
			m.vals = m.vals[:i]
			m.live = m.live[:i]
			m.n--
			if conc {
				delete(m.idx, hk)
			} else {
				m.nsym--
			}
		}})
	}
}

func (w *Worker) mapDelete(m *Map, k Value) {
	i := w.mapFind(m, k)
	w.raceMap(m, true)
	if i < 0 {
		return
	}
	hk, conc := hkey(m.kt, m.keys[i])
	m.live[i] = false
	m.n--
	if conc {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	if m.epoch != w.epoch {
		w.journal = append(w.journal, undo{f: func() {
			m.live[i] = true
			m.n++
			if conc {
				m.idx[hk] = i
			} else {
				m.nsym++
			}
		}})
	}
}
