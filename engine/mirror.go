package main

import (
	"go/types"
	"sort"
)

// mirror intrinsics: a small reflection layer used by the Go-source models (fmt %v, text/template).

func box(t *RType, v Value) Value {
	if t.kind == KIface {
		return v
	}
	return Value{o: &Iface{t, v}}
}

func (w *Worker) deref(x Value) Value {
	for x.o != nil {
		i, ok := x.o.(*Iface)
		if !ok || i.t.kind != KPtr || i.v.o == nil {
			return x
		}
		o, off := ptr(i.v)
		x = box(i.t.elem, w.load(o, off, i.t.elem))
	}
	return x
}

func fieldPath(t *RType, name string) ([]int, *RType, bool) {
	st, ok := t.t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, false
	}
	_ = st
	obj, index, _ := types.LookupFieldOrMethod(t.t, true, pkgOf(t.t), name)
	if v, ok := obj.(*types.Var); ok && v.IsField() {
		return index, nil, true
	}
	return nil, nil, false
}

func pkgOf(t types.Type) *types.Package {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (w *Worker) mField(x Value, name string) (Value, int) {
	if x.o == nil {
		return Value{}, 0
	}
	i := x.o.(*Iface)
	if i.t.kind == KPtr && i.v.o == nil {
		return Value{}, 3
	}
	d := w.deref(x)
	if d.o == nil {
		return Value{}, 0
	}
	i = d.o.(*Iface)
	switch i.t.kind {
	case KStruct:
		path, _, ok := fieldPath(i.t, name)
		if !ok {
			return Value{}, 0
		}
		t, v := i.t, i.v
		for n, k := range path {
			f := t.fields[k]
			v = aggGet(v, t.offs[k], f)
			t = f
			if n < len(path)-1 && t.kind == KPtr {
				if v.o == nil {
					return Value{}, 3
				}
				o, off := ptr(v)
				v = w.load(o, off, t.elem)
				t = t.elem
			}
		}
		return box(t, v), 1
	case KMap:
		if i.v.o == nil {
			if i.t.elem.kind == KIface {
				return Value{}, 2
			}
			return box(i.t.elem, zeroVal(i.t.elem)), 1
		}
		m := i.v.o.(*Map)
		k := vStr(name)
		w.raceMap(m, false)
		if n := w.mapFind(m, k); n >= 0 {
			return box(i.t.elem, m.vals[n]), 1
		}
		if i.t.elem.kind == KIface {
			return Value{}, 2
		}
		return box(i.t.elem, zeroVal(i.t.elem)), 1
	}
	return Value{}, 0
}

func (w *Worker) callValue(fn *Func, args, binds []Value, post func(*Worker, Value) Value) {
	w.tail = &tailCall{fn: fn, args: args, binds: binds, post: post}
}

// callAny calls a function value with interface arguments, giving (result any, err error).
func (w *Worker) callAny(sig *types.Signature, fn *Func, recv []Value, binds []Value, args []Value) {
	np := sig.Params().Len()
	conv := append([]Value(nil), recv...)
	for i, a := range args {
		var pt *RType
		if sig.Variadic() && i >= np-1 {
			panic(pathEnd{"unsupported", "variadic template function"})
		}
		if i >= np {
			panic(pathEnd{"unsupported", "template function arity"})
		}
		pt = w.prog.rt(sig.Params().At(i).Type())
		if pt.kind == KIface {
			conv = append(conv, a)
		} else if a.o == nil {
			conv = append(conv, zeroVal(pt))
		} else {
			ai := a.o.(*Iface)
			if ai.t != pt && ai.t.kind != pt.kind {
				panic(pathEnd{"unsupported", "template function argument " + ai.t.String() + " for " + pt.String()})
			}
			conv = append(conv, ai.v)
		}
	}
	nr := sig.Results().Len()
	var rts []*RType
	for i := 0; i < nr; i++ {
		rts = append(rts, w.prog.rt(sig.Results().At(i).Type()))
	}
	w.callValue(fn, conv, binds, func(w *Worker, v Value) Value {
		switch nr {
		case 0:
			return tup(Value{}, Value{})
		case 1:
			return tup(box(rts[0], v), Value{})
		}
		t := v.o.(Tuple)
		return tup(box(rts[0], t[0]), t[1])
	})
}

func (w *Worker) mTruth(x Value) Value {
	if x.o == nil {
		return vBool(false)
	}
	i := x.o.(*Iface)
	switch i.t.kind {
	case KBool:
		return i.v
	case KString, KSlice, KMap:
		return vBool(w.length(i.v, i.t).n != 0)
	case KInt:
		if i.v.o != nil {
			t := i.v.o.(*Term)
			return vBV(w.tt.Not(w.tt.Bin(OEq, t, w.tt.Const(t.w, 0))), false)
		}
		return vBool(i.v.n != 0)
	case KFloat:
		return vBool(i.v.f64() != 0)
	case KPtr, KFunc, KChan:
		return vBool(i.v.o != nil)
	case KStruct:
		return vBool(true)
	case KArray:
		return vBool(i.t.alen > 0)
	}
	return vBool(true)
}

func (w *Worker) basic(i *Iface) Value {
	b := func(k types.BasicKind, v Value) Value { return Value{o: &Iface{w.prog.rt(types.Typ[k]), v}} }
	switch i.t.kind {
	case KBool:
		return b(types.Bool, i.v)
	case KString:
		return b(types.String, i.v)
	case KFloat:
		return b(types.Float64, i.v)
	case KInt:
		v := i.v
		if t, ok := v.o.(*Term); ok {
			if i.t.signed {
				v = vBV(w.tt.Sext(t, 64), true)
			} else {
				v = vBV(w.tt.Zext(t, 64), false)
			}
		}
		if i.t.signed {
			return b(types.Int64, v)
		}
		return b(types.Uint64, v)
	}
	return Value{}
}

func init() {
	in := func(name string, f Intrinsic) { intrinsics[modPath+"."+name] = f }
	in("mField", func(w *Worker, a []Value) Value {
		v, k := w.mField(a[0], w.mustConc(a[1]))
		return tup(v, vInt(int64(k)))
	})
	in("mHasMethod", func(w *Worker, a []Value) Value {
		if a[0].o == nil {
			return vBool(false)
		}
		i := a[0].o.(*Iface)
		return vBool(w.prog.lookupMethod(i.t, nil, w.mustConc(a[1])) != nil)
	})
	in("mCallMethod", func(w *Worker, a []Value) Value {
		i := a[0].o.(*Iface)
		f := w.prog.lookupMethod(i.t, nil, w.mustConc(a[1]))
		w.callAny(f.fn.Signature, f, []Value{i.v}, nil, w.anys(a[2]))
		return Value{}
	})
	in("mCall", func(w *Worker, a []Value) Value {
		i := a[0].o.(*Iface)
		cl := i.v.o.(*Closure)
		w.callAny(i.t.t.Underlying().(*types.Signature), cl.fn, nil, cl.binds, w.anys(a[1]))
		return Value{}
	})
	in("mTruth", func(w *Worker, a []Value) Value { return w.mTruth(a[0]) })
	in("mLen", func(w *Worker, a []Value) Value {
		d := w.deref(a[0])
		if d.o == nil {
			return vInt(-1)
		}
		i := d.o.(*Iface)
		switch i.t.kind {
		case KString, KSlice, KMap, KArray, KChan:
			return w.length(i.v, i.t)
		}
		return vInt(-1)
	})
	in("mIndex", func(w *Worker, a []Value) Value {
		d := w.deref(a[0])
		i := d.o.(*Iface)
		k := int(w.concInt(a[1]))
		switch i.t.kind {
		case KSlice:
			s := sl(i.v)
			if s == nil || k < 0 || k >= s.len {
				return tup(Value{}, vBool(false))
			}
			return tup(box(i.t.elem, w.load(s.obj, s.off+k*s.esz, i.t.elem)), vBool(true))
		case KArray:
			return tup(box(i.t.elem, aggGet(i.v, k*i.t.elem.slots, i.t.elem)), vBool(true))
		case KString:
			s := str(i.v)
			return tup(Value{o: &Iface{w.prog.rt(types.Typ[types.Uint8]), s.at(k)}}, vBool(true))
		}
		return tup(Value{}, vBool(false))
	})
	in("mMapKeys", func(w *Worker, a []Value) Value {
		// keys in insertion order, boxed
		d := w.deref(a[0])
		i := d.o.(*Iface)
		var ks []Value
		if i.v.o != nil {
			m := i.v.o.(*Map)
			for k := range m.keys {
				if m.live[k] {
					ks = append(ks, box(m.kt, m.keys[k]))
				}
			}
		}
		sort.SliceStable(ks, func(x, y int) bool {
			if ks[x].o == nil || ks[y].o == nil {
				return false
			}
			p, q := ks[x].o.(*Iface), ks[y].o.(*Iface)
			if p.t.kind == KString && q.t.kind == KString {
				return str(p.v).s < str(q.v).s
			}
			return int64(p.v.n) < int64(q.v.n)
		})
		return Value{o: &Slice{obj: &Obj{vals: ks, epoch: w.epoch}, len: len(ks), cap: len(ks), esz: 1}}
	})
	in("mMapGet", func(w *Worker, a []Value) Value {
		d := w.deref(a[0])
		i := d.o.(*Iface)
		if i.v.o == nil {
			return tup(Value{}, vBool(false))
		}
		m := i.v.o.(*Map)
		k := a[1]
		if m.kt.kind != KIface {
			if k.o == nil {
				return tup(Value{}, vBool(false))
			}
			k = k.o.(*Iface).v
		}
		if n := w.mapFind(m, k); n >= 0 {
			return tup(box(m.vt, m.vals[n]), vBool(true))
		}
		return tup(Value{}, vBool(false))
	})
	in("mKind", func(w *Worker, a []Value) Value {
		if a[0].o == nil {
			return vInt(-1)
		}
		return vInt(int64(a[0].o.(*Iface).t.kind))
	})
	in("mDeref", func(w *Worker, a []Value) Value {
		if a[0].o == nil {
			return tup(Value{}, vBool(false))
		}
		i := a[0].o.(*Iface)
		if i.t.kind != KPtr || i.v.o == nil {
			return tup(Value{}, vBool(false))
		}
		o, off := ptr(i.v)
		return tup(box(i.t.elem, w.load(o, off, i.t.elem)), vBool(true))
	})
	in("mFieldAt", func(w *Worker, a []Value) Value {
		i := a[0].o.(*Iface)
		k := int(a[1].n)
		if k >= len(i.t.fields) {
			return tup(Value{}, vStr(""), vBool(false))
		}
		return tup(box(i.t.fields[k], aggGet(i.v, i.t.offs[k], i.t.fields[k])), vStr(i.t.fnames[k]), vBool(true))
	})
	in("mBasic", func(w *Worker, a []Value) Value {
		if a[0].o == nil {
			return Value{}
		}
		return w.basic(a[0].o.(*Iface))
	})
	in("mTypeName", func(w *Worker, a []Value) Value {
		if a[0].o == nil {
			return vStr("<nil>")
		}
		return vStr(a[0].o.(*Iface).t.String())
	})
	in("mIsNil", func(w *Worker, a []Value) Value {
		if a[0].o == nil {
			return vBool(true)
		}
		i := a[0].o.(*Iface)
		switch i.t.kind {
		case KPtr, KMap, KSlice, KFunc, KChan:
			return vBool(i.v.o == nil)
		}
		return vBool(false)
	})
	in("mEq", func(w *Worker, a []Value) Value {
		if a[0].o == nil || a[1].o == nil {
			return tup(vBool(a[0].o == nil && a[1].o == nil), vBool(true))
		}
		x, y := a[0].o.(*Iface), a[1].o.(*Iface)
		if x.t.kind != y.t.kind {
			return tup(vBool(false), vBool(false))
		}
		if x.t.kind == KInt {
			p, q := w.basic(x).o.(*Iface), w.basic(y).o.(*Iface)
			return tup(vBV(w.tt.Bin(OEq, w.term(p.v, 64), w.term(q.v, 64)), false), vBool(true))
		}
		return tup(vBV(w.eq(x.t, x.v, y.v), false), vBool(true))
	})
	in("mUnreflect", func(w *Worker, a []Value) Value {
		return aggSlots(a[0], nil)[1]
	})
	in("mState", func(w *Worker, a []Value) Value { // *fmt.pp as fmt.State
		return Value{o: &Iface{w.prog.ppType(), a[0]}}
	})
	in("mCacheGet", func(w *Worker, a []Value) Value {
		v, ok := w.cache[w.mustConc(a[0])]
		return tup(v, vBool(ok))
	})
	in("mCachePut", func(w *Worker, a []Value) Value {
		w.cache[w.mustConc(a[0])] = a[1]
		return Value{}
	})
	in("mSideGet", func(w *Worker, a []Value) Value {
		v, ok := w.side[sideKey{a[0].o, w.mustConc(a[1])}]
		if !ok {
			return tup(Value{}, vBool(false))
		}
		return tup(v.(Value), vBool(true))
	})
	in("mSidePut", func(w *Worker, a []Value) Value {
		w.sideSet(sideKey{a[0].o, w.mustConc(a[1])}, a[2])
		return Value{}
	})
	in("mUnsupported", func(w *Worker, a []Value) Value {
		panic(pathEnd{"unsupported", w.concStr(str(a[0]))})
	})
}

type sideKey struct {
	o any
	k string
}

func (w *Worker) anys(v Value) []Value {
	s := sl(v)
	if s == nil {
		return nil
	}
	r := make([]Value, s.len)
	for i := range r {
		r[i] = s.obj.get(s.off + i)
	}
	return r
}

func (p *Program) ppType() *RType {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "fmt" {
			return p.rt(types.NewPointer(pk.Pkg.Scope().Lookup("pp").Type()))
		}
	}
	panic(engineErr("fmt.pp"))
}
