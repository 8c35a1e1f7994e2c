package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

type Intrinsic func(w *Worker, args []Value) Value

var intrinsics = map[string]Intrinsic{}

// fastpaths are used when all arguments are concrete; otherwise the real code is interpreted.
var fastpaths = map[string]func(w *Worker, args []Value) (Value, bool){}

func tup(vs ...Value) Value { return Value{o: Tuple(vs)} }

func nop(w *Worker, args []Value) Value { return Value{} }

func concS(v Value) (string, bool) {
	s := str(v)
	return s.s, s.t == nil
}

func (w *Worker) mustConc(v Value) string {
	s := str(v)
	if s.t == nil {
		return s.s
	}
	b := []byte(s.s)
	for i, t := range s.t {
		if t != nil {
			b[i] = byte(w.concretize(Value{o: t}, 8))
		}
	}
	return string(b)
}

func ptr(v Value) (*Obj, int) {
	if v.o == nil {
		panic(goPanic{kind: "nil"})
	}
	o, ok := v.o.(*Obj)
	if !ok {
		panic(engineErr(fmt.Sprintf("pointer expected, have %T", v.o)))
	}
	return o, int(v.n)
}

func (w *Worker) eqByte(v Value, c Value) bool {
	if v.o == nil && c.o == nil {
		return v.n&0xff == c.n&0xff
	}
	return w.decide(w.tt.Bin(OEq, w.term(v, 8), w.term(c, 8)))
}

func (w *Worker) indexStr(s, sub *Str) int {
	if s.t == nil && sub.t == nil {
		return strings.Index(s.s, sub.s)
	}
	for i := 0; i+len(sub.s) <= len(s.s); i++ {
		t := w.strEq(s.sub(i, i+len(sub.s)), sub)
		if t == w.tt.F {
			continue
		}
		if w.decide(t) {
			return i
		}
	}
	return -1
}

func (w *Worker) compareStr(a, b *Str) Value {
	if a.t == nil && b.t == nil {
		return vInt(int64(strings.Compare(a.s, b.s)))
	}
	if w.decide(w.strEq(a, b)) {
		return vInt(0)
	}
	if w.decide(w.strLess(a, b, false)) {
		return vInt(-1)
	}
	return vInt(1)
}

func (w *Worker) blockOn(cond func(w *Worker) bool) {
	w.block(w.cur, cond)
	w.schedule()
	panic(switchG{})
}

type hbKey struct {
	o *Obj
	i int
}

// hb models an acquire-release operation on a synchronisation location.
func (w *Worker) hb(o *Obj, i int) {
	if !w.raceOn {
		return
	}
	k := hbKey{o, i}
	old, had := w.side[k]
	if had {
		w.cur.vc = w.cur.vc.join(old.(vclock))
	}
	w.side[k] = w.cur.vc.clone()
	w.journal = append(w.journal, undo{f: func() {
		if had {
			w.side[k] = old
		} else {
			delete(w.side, k)
		}
	}})
	w.tick()
}

func (w *Worker) sideSet(k, v any) {
	old, had := w.side[k]
	w.side[k] = v
	w.journal = append(w.journal, undo{f: func() {
		if had {
			w.side[k] = old
		} else {
			delete(w.side, k)
		}
	}})
}

const symPath = "github.com/bytesparadise/libasciidoc/zz_verif/sym"
const modPath = "github.com/bytesparadise/libasciidoc/zz_verif/models"

// replayed returns the recorded value of the next input in concrete mode.
func (w *Worker) replayed(name string) (int64, bool) {
	if !w.isReplay || w.job == nil || w.job.name == "init" {
		return 0, false
	}
	for w.replayPos < len(w.replayIn) && (w.replayIn[w.replayPos].Kind == "sched" || w.replayIn[w.replayPos].Kind == "maporder") {
		w.replayPos++
	}
	if w.replayPos >= len(w.replayIn) || w.replayIn[w.replayPos].Name != name {
		panic(pathEnd{"unsupported", "replay diverged at input " + name})
	}
	v := w.replayIn[w.replayPos].Val
	w.replayPos++
	w.inputs = append(w.inputs, Input{Kind: "int", Name: name, v: v})
	return v, true
}

func (w *Worker) newInput(kind, name string, width uint8) *Term {
	t := w.newVar(width, name)
	w.inputs = append(w.inputs, Input{Kind: kind, Name: name, t: t})
	return t
}

func (w *Worker) assume(v Value) {
	if t, ok := v.o.(*Term); ok {
		yes, no, my, _ := w.both(t)
		if !yes {
			panic(pathEnd{"assume", ""})
		}
		if no {
			w.addPC(t, my)
		}
		return
	}
	if v.n == 0 {
		panic(pathEnd{"assume", ""})
	}
}

func init() {
	in := func(name string, f Intrinsic) { intrinsics[name] = f }

	// ---- harness interface
	in(symPath+".Byte", func(w *Worker, a []Value) Value {
		if v, ok := w.replayed(w.mustConc(a[0])); ok {
			return vInt(v)
		}
		return vTerm(w.newInput("byte", w.mustConc(a[0]), 8))
	})
	in(symPath+".ByteIn", func(w *Worker, a []Value) Value { // ByteIn(name, alphabet string)
		if v, ok := w.replayed(w.mustConc(a[0])); ok {
			return vInt(v)
		}
		al := w.mustConc(a[1])
		if len(al) == 1 {
			w.inputs = append(w.inputs, Input{Kind: "byte", Name: w.mustConc(a[0]), v: int64(al[0])})
			return Value{n: uint64(al[0])}
		}
		t := w.newInput("byte", w.mustConc(a[0]), 8)
		c := w.tt.F
		for i := 0; i < len(al); i++ {
			c = w.tt.Or(c, w.tt.Bin(OEq, t, w.tt.Const(8, uint64(al[i]))))
		}
		w.addPC(c, nil)
		return vTerm(t)
	})
	in(symPath+".Int", func(w *Worker, a []Value) Value {
		if v, ok := w.replayed(w.mustConc(a[0])); ok {
			return vInt(v)
		}
		lo, hi := int64(a[1].n), int64(a[2].n)
		if lo == hi {
			w.inputs = append(w.inputs, Input{Kind: "int", Name: w.mustConc(a[0]), v: lo})
			return vInt(lo)
		}
		if hi-lo <= 255 {
			t := w.newVar(8, w.mustConc(a[0]))
			w.addPC(w.tt.Bin(OUle, t, w.tt.Const(8, uint64(hi-lo))), map[int32]uint64{t.sv: 0})
			v := w.tt.Bin(OAdd, w.tt.Zext(t, 64), w.tt.Const(64, uint64(lo)))
			w.inputs = append(w.inputs, Input{Kind: "int", Name: w.mustConc(a[0]), t: v, sgn: true})
			return vBV(v, true)
		}
		t := w.newInput("int", w.mustConc(a[0]), 64)
		w.inputs[len(w.inputs)-1].sgn = true
		id := int32(t.k)
		w.pc.model[id] = uint64(lo)
		w.addPC(w.tt.And(w.tt.Bin(OSle, w.tt.Const(64, uint64(lo)), t), w.tt.Bin(OSle, t, w.tt.Const(64, uint64(hi)))), map[int32]uint64{id: uint64(lo)})
		return vTerm(t)
	})
	in(symPath+".Bool", func(w *Worker, a []Value) Value {
		if v, ok := w.replayed(w.mustConc(a[0])); ok {
			return vInt(v)
		}
		t := w.newVar(8, w.mustConc(a[0]))
		w.addPC(w.tt.Bin(OUle, t, w.tt.Const(8, 1)), map[int32]uint64{t.sv: 0})
		w.inputs = append(w.inputs, Input{Kind: "bool", Name: w.mustConc(a[0]), t: t})
		return vTerm(w.tt.Bin(OEq, t, w.tt.Const(8, 1)))
	})
	in(symPath+".Choice", func(w *Worker, a []Value) Value {
		if v, ok := w.replayed(w.mustConc(a[0])); ok {
			return vInt(v)
		}
		n := int(a[1].n)
		k := w.choose(n, "choice")
		w.inputs = append(w.inputs, Input{Kind: "choice", Name: w.mustConc(a[0]), v: int64(k)})
		return vInt(int64(k))
	})
	in(symPath+".Assume", func(w *Worker, a []Value) Value {
		w.assume(a[0])
		return Value{}
	})
	in(symPath+".Assert", func(w *Worker, a []Value) Value {
		w.assert(a[0], w.concStr(str(a[1])))
		return Value{}
	})
	in(symPath+".Fail", func(w *Worker, a []Value) Value {
		panic(pathEnd{"violation", w.concStr(str(a[0]))})
	})
	in(symPath+".Cover", func(w *Worker, a []Value) Value {
		w.covers = append(w.covers, w.mustConc(a[0]))
		return Value{}
	})
	in(symPath+".Note", func(w *Worker, a []Value) Value {
		w.notes = append(w.notes, w.concStr(str(a[0])))
		return Value{}
	})
	in(symPath+".Log", func(w *Worker, a []Value) Value {
		if w.isReplay {
			w.logs = append(w.logs, w.concStr(str(a[0])))
		}
		if w.debug {
			fmt.Printf("LOG: %s\n", w.concStr(str(a[0])))
		}
		return Value{}
	})
	in(symPath+".Symbolic", func(w *Worker, a []Value) Value { return vBool(true) })
	in(symPath+".Stop", func(w *Worker, a []Value) Value { panic(pathEnd{"done", ""}) })
	in(symPath+".OutOfBound", func(w *Worker, a []Value) Value {
		panic(pathEnd{"unsupported", "outside the bound: " + w.concStr(str(a[0]))})
	})
	in(symPath+".Budget", func(w *Worker, a []Value) Value {
		w.budget = w.steps + int64(a[0].n)
		return Value{}
	})
	in(symPath+".MapOrder", func(w *Worker, a []Value) Value { w.mapOrder = a[0].n != 0; return Value{} })
	in(symPath+".MapDeviate", func(w *Worker, a []Value) Value { w.mapDev = int(a[0].n); return Value{} })
	in(symPath+".Race", func(w *Worker, a []Value) Value {
		w.raceOn = a[0].n != 0
		if w.raceOn {
			for _, g := range w.gs {
				if g.vc == nil {
					g.vc = vclock{}.set(g.id, 1)
				}
			}
		}
		return Value{}
	})
	in(symPath+".Sched", func(w *Worker, a []Value) Value { w.schedChoice = a[0].n != 0; return Value{} })
	in(symPath+".Goroutines", func(w *Worker, a []Value) Value {
		n := 0
		for _, g := range w.gs {
			if g.top != nil {
				n++
			}
		}
		return vInt(int64(n))
	})
	// Drain lets the other goroutines run until none can make progress; returns how many are still alive.
	in(symPath+".Drain", func(w *Worker, a []Value) Value {
		me := w.cur
		for _, g := range w.gs {
			if g != me && g.top != nil && (!g.blocked || g.wait != nil && g.wait(w)) {
				// others can still run: yield
				w.block(me, func(w *Worker) bool {
					for _, g := range w.gs {
						if g != me && g.top != nil && (!g.blocked || g.wait != nil && g.wait(w)) {
							return false
						}
					}
					return true
				})
				w.schedule()
				panic(switchG{})
			}
		}
		n := 0
		for _, g := range w.gs {
			if g != me && g.top != nil {
				n++
			}
		}
		return vInt(int64(n))
	})
	in(symPath+".EqBytes", func(w *Worker, a []Value) Value { // EqBytes(a, b string) bool without forking
		return vBV(w.strEq(str(a[0]), str(a[1])), false)
	})
	in(symPath+".WriteFile", func(w *Worker, a []Value) Value {
		w.vfs.write(w, w.mustConc(a[0]), str(a[1]))
		return Value{}
	})
	in(symPath+".Mkdir", func(w *Worker, a []Value) Value {
		w.vfs.mkdir(w, w.mustConc(a[0]))
		return Value{}
	})
	in(symPath+".ReadFile", func(w *Worker, a []Value) Value {
		s, ok := w.vfs.read(w.mustConc(a[0]))
		return tup(vS(s), vBool(ok))
	})
	in(symPath+".Getwd", func(w *Worker, a []Value) Value { return vStr(w.vfs.cwd) })
	in(symPath+".OpenFiles", func(w *Worker, a []Value) Value { return vInt(int64(w.vfs.open)) })
	// IteInt / AndB: expression-level helpers that never fork
	in(symPath+".And", func(w *Worker, a []Value) Value { return vBV(w.tt.And(w.boolTerm(a[0]), w.boolTerm(a[1])), false) })
	in(symPath+".Or", func(w *Worker, a []Value) Value { return vBV(w.tt.Or(w.boolTerm(a[0]), w.boolTerm(a[1])), false) })
	in(symPath+".Not", func(w *Worker, a []Value) Value { return vBV(w.tt.Not(w.boolTerm(a[0])), false) })
	in(symPath+".InSet", func(w *Worker, a []Value) Value { // InSet(b byte, alphabet string) bool
		al := w.mustConc(a[1])
		if a[0].o == nil {
			return vBool(strings.IndexByte(al, byte(a[0].n)) >= 0)
		}
		t := a[0].o.(*Term)
		c := w.tt.F
		for i := 0; i < len(al); i++ {
			c = w.tt.Or(c, w.tt.Bin(OEq, t, w.tt.Const(8, uint64(al[i]))))
		}
		return vBV(c, false)
	})

	// ---- runtime-ish
	in("runtime.Callers", func(w *Worker, a []Value) Value { return vInt(0) })
	in("runtime.Caller", func(w *Worker, a []Value) Value { return tup(Value{}, vStr(""), vInt(0), vBool(false)) })
	in("runtime.GC", nop)
	in("runtime.KeepAlive", nop)
	in("runtime.SetFinalizer", nop)
	in("runtime.Gosched", nop)
	in("runtime.GOMAXPROCS", func(w *Worker, a []Value) Value { return vInt(8) })
	in("runtime.NumGoroutine", func(w *Worker, a []Value) Value {
		n := 0
		for _, g := range w.gs {
			if g.top != nil {
				n++
			}
		}
		return vInt(int64(n))
	})
	in("internal/abi.NoEscape", func(w *Worker, a []Value) Value { return a[0] })
	in("internal/abi.Escape", func(w *Worker, a []Value) Value { return a[0] })
	in("internal/bytealg.MakeNoZero", func(w *Worker, a []Value) Value {
		n := int(a[0].n)
		return Value{o: &Slice{obj: w.newByteObj(make([]byte, n), nil), len: n, cap: n, esz: 1}}
	})
	in("internal/bytealg.IndexByte", func(w *Worker, a []Value) Value {
		return vInt(int64(w.idxByte(bytesToStr(sl(a[0])), a[1])))
	})
	in("internal/bytealg.IndexByteString", func(w *Worker, a []Value) Value {
		return vInt(int64(w.idxByte(str(a[0]), a[1])))
	})
	lastIdx := func(w *Worker, s *Str, c Value) Value {
		for i := len(s.s) - 1; i >= 0; i-- {
			if w.eqByte(s.at(i), c) {
				return vInt(int64(i))
			}
		}
		return vInt(-1)
	}
	in("internal/bytealg.LastIndexByte", func(w *Worker, a []Value) Value { return lastIdx(w, bytesToStr(sl(a[0])), a[1]) })
	in("internal/bytealg.LastIndexByteString", func(w *Worker, a []Value) Value { return lastIdx(w, str(a[0]), a[1]) })
	count := func(w *Worker, s *Str, c Value) Value {
		n := 0
		for i := range s.s {
			if w.eqByte(s.at(i), c) {
				n++
			}
		}
		return vInt(int64(n))
	}
	in("internal/bytealg.Count", func(w *Worker, a []Value) Value { return count(w, bytesToStr(sl(a[0])), a[1]) })
	in("internal/bytealg.CountString", func(w *Worker, a []Value) Value { return count(w, str(a[0]), a[1]) })
	in("internal/bytealg.Compare", func(w *Worker, a []Value) Value {
		return w.compareStr(bytesToStr(sl(a[0])), bytesToStr(sl(a[1])))
	})
	in("internal/bytealg.CompareString", func(w *Worker, a []Value) Value { return w.compareStr(str(a[0]), str(a[1])) })
	in("internal/bytealg.Equal", func(w *Worker, a []Value) Value {
		return vBV(w.strEq(bytesToStr(sl(a[0])), bytesToStr(sl(a[1]))), false)
	})
	in("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	in("bytes.Compare", intrinsics["internal/bytealg.Compare"])
	idx := func(w *Worker, a []Value) Value { return vInt(int64(w.indexStr(str(a[0]), str(a[1])))) }
	idxB := func(w *Worker, a []Value) Value {
		return vInt(int64(w.indexStr(bytesToStr(sl(a[0])), bytesToStr(sl(a[1])))))
	}
	in("strings.Index", idx)
	in("internal/stringslite.Index", idx)
	in("internal/bytealg.IndexString", idx)
	in("internal/bytealg.Index", idxB)
	in("bytes.Index", idxB)
	in("internal/bytealg.IndexRabinKarp", func(w *Worker, a []Value) Value {
		panic(engineErr("IndexRabinKarp"))
	})
	in("strings.Compare", intrinsics["internal/bytealg.CompareString"])
	in("internal/stringslite.Clone", func(w *Worker, a []Value) Value { return a[0] })
	in("strings.Clone", func(w *Worker, a []Value) Value { return a[0] })
	in("(*strings.Builder).String", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		return vS(bytesToStr(sl(o.get(off + 1))))
	})
	in("(*strings.Builder).copyCheck", nop)
	in("unicode/utf8.DecodeRune", func(w *Worker, a []Value) Value {
		s := sl(a[0])
		if s == nil || s.len == 0 {
			return tup(Value{n: uint64(utf8.RuneError)}, vInt(0))
		}
		r, n := w.decodeRuneAt(func(k int) Value { return s.obj.get(s.off + k) }, s.len)
		return tup(r, vInt(int64(n)))
	})
	in("unicode/utf8.DecodeRuneInString", func(w *Worker, a []Value) Value {
		r, n := w.decodeRune(str(a[0]), 0)
		return tup(r, vInt(int64(n)))
	})
	in("unicode/utf8.RuneCountInString", func(w *Worker, a []Value) Value {
		s := str(a[0])
		if s.t == nil {
			return vInt(int64(utf8.RuneCountInString(s.s)))
		}
		n := 0
		for i := 0; i < len(s.s); {
			_, k := w.decodeRune(s, i)
			i += k
			n++
		}
		return vInt(int64(n))
	})

	// ---- sync
	in("(*sync.Mutex).Lock", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		if o.get(off).n != 0 {
			w.blockOn(func(w *Worker) bool { return o.get(off).n == 0 })
		}
		w.set(o, off, Value{n: 1})
		w.hb(o, off)
		return Value{}
	})
	in("(*sync.Mutex).TryLock", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		if o.get(off).n != 0 {
			return vBool(false)
		}
		w.set(o, off, Value{n: 1})
		w.hb(o, off)
		return vBool(true)
	})
	in("(*sync.Mutex).Unlock", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		if o.get(off).n == 0 {
			panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex at " + w.where()})
		}
		w.hb(o, off)
		w.set(o, off, Value{n: 0})
		return Value{}
	})
	in("(*sync.RWMutex).Lock", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		if o.get(off).n != 0 {
			w.blockOn(func(w *Worker) bool { return o.get(off).n == 0 })
		}
		w.set(o, off, Value{n: ^uint64(0)})
		w.hb(o, off)
		return Value{}
	})
	in("(*sync.RWMutex).Unlock", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		w.hb(o, off)
		w.set(o, off, Value{n: 0})
		return Value{}
	})
	in("(*sync.RWMutex).RLock", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		if int64(o.get(off).n) < 0 {
			w.blockOn(func(w *Worker) bool { return int64(o.get(off).n) >= 0 })
		}
		w.set(o, off, Value{n: o.get(off).n + 1})
		w.hb(o, off)
		return Value{}
	})
	in("(*sync.RWMutex).RUnlock", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		w.hb(o, off)
		w.set(o, off, Value{n: o.get(off).n - 1})
		return Value{}
	})
	in("(*sync.WaitGroup).Add", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		w.hb(o, off)
		w.set(o, off, Value{n: o.get(off).n + a[1].n})
		return Value{}
	})
	in("(*sync.WaitGroup).Done", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		w.hb(o, off)
		w.set(o, off, Value{n: o.get(off).n - 1})
		return Value{}
	})
	in("(*sync.WaitGroup).Wait", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		if o.get(off).n != 0 {
			w.blockOn(func(w *Worker) bool { return o.get(off).n == 0 })
		}
		w.hb(o, off)
		return Value{}
	})
	for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "", "64", "uintptr", "p", "8"} {
			rt := map[string]*RType{"Int32": {kind: KInt, w: 32, signed: true}, "Uint32": {kind: KInt, w: 32}}[ty]
			if rt == nil {
				rt = &RType{kind: KInt, w: 64}
			}
			in(pk+"Load"+ty, func(w *Worker, a []Value) Value {
				o, off := ptr(a[0])
				w.hb(o, off)
				return o.get(off)
			})
			in(pk+"Store"+ty, func(w *Worker, a []Value) Value {
				o, off := ptr(a[0])
				w.hb(o, off)
				w.set(o, off, a[1])
				return Value{}
			})
			in(pk+"Swap"+ty, func(w *Worker, a []Value) Value {
				o, off := ptr(a[0])
				w.hb(o, off)
				v := o.get(off)
				w.set(o, off, a[1])
				return v
			})
			in(pk+"Add"+ty, func(w *Worker, a []Value) Value {
				o, off := ptr(a[0])
				w.hb(o, off)
				v := Value{n: norm(o.get(off).n+a[1].n, rt)}
				w.set(o, off, v)
				return v
			})
			in(pk+"CompareAndSwap"+ty, func(w *Worker, a []Value) Value {
				o, off := ptr(a[0])
				w.hb(o, off)
				v := o.get(off)
				if sameVal(v, a[1]) {
					w.set(o, off, a[2])
					return vBool(true)
				}
				return vBool(false)
			})
		}
	}
	in("(*sync/atomic.Value).Load", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		w.hb(o, off)
		return o.get(off)
	})
	in("(*sync/atomic.Value).Store", func(w *Worker, a []Value) Value {
		o, off := ptr(a[0])
		w.hb(o, off)
		w.set(o, off, a[1])
		return Value{}
	})

	// ---- time
	in("time.now", func(w *Worker, a []Value) Value { return tup(vInt(1700000000), vInt(0), vInt(0)) })
	in("time.runtimeNow", intrinsics["time.now"])
	in("time.runtimeNano", func(w *Worker, a []Value) Value { return vInt(1700000000) })
	in("time.Now", func(w *Worker, a []Value) Value {
		// wall, ext (seconds since year 1), loc=nil (UTC)
		return Value{o: &Agg{[]Value{{n: 0}, vInt(1700000000 + 62135596800), {}}}}
	})
	in("time.Since", func(w *Worker, a []Value) Value { return vInt(0) })
	in("time.Sleep", nop)
	in("time.initLocal", nop)

	// ---- math
	f1 := func(name string, f func(float64) float64) {
		in("math."+name, func(w *Worker, a []Value) Value { return vFloat(f(a[0].f64())) })
	}
	f1("Floor", math.Floor)
	f1("Ceil", math.Ceil)
	f1("Trunc", math.Trunc)
	f1("Sqrt", math.Sqrt)
	f1("Abs", math.Abs)
	f1("Log10", math.Log10)
	f1("Log", math.Log)
	f1("Log2", math.Log2)
	f1("Exp", math.Exp)
	f1("Round", math.Round)
	f1("sqrt", math.Sqrt)
	in("math.Pow", func(w *Worker, a []Value) Value { return vFloat(math.Pow(a[0].f64(), a[1].f64())) })
	in("math.Mod", func(w *Worker, a []Value) Value { return vFloat(math.Mod(a[0].f64(), a[1].f64())) })
	in("math.Max", func(w *Worker, a []Value) Value { return vFloat(math.Max(a[0].f64(), a[1].f64())) })
	in("math.Min", func(w *Worker, a []Value) Value { return vFloat(math.Min(a[0].f64(), a[1].f64())) })
	in("math.FMA", func(w *Worker, a []Value) Value { return vFloat(math.FMA(a[0].f64(), a[1].f64(), a[2].f64())) })
	in("math.Float64bits", func(w *Worker, a []Value) Value { return Value{n: a[0].n} })
	in("math.Float64frombits", func(w *Worker, a []Value) Value { return Value{n: a[0].n} })
	in("math.Float32bits", func(w *Worker, a []Value) Value { return Value{n: uint64(math.Float32bits(float32(a[0].f64())))} })
	in("math.Float32frombits", func(w *Worker, a []Value) Value { return vFloat(float64(math.Float32frombits(uint32(a[0].n)))) })
	in("math.IsNaN", func(w *Worker, a []Value) Value { return vBool(math.IsNaN(a[0].f64())) })

	// ---- reflect (only what fmt, sort and errors need)
	in("internal/reflectlite.Swapper", swapper)
	in("reflect.Swapper", swapper)
	in("reflect.TypeOf", func(w *Worker, a []Value) Value { return w.rtypeOf(a[0], "reflect", "rtype", true) })
	in("internal/reflectlite.TypeOf", func(w *Worker, a []Value) Value {
		return w.rtypeOf(a[0], "internal/reflectlite", "rtype", false)
	})
	in("(*reflect.rtype).String", func(w *Worker, a []Value) Value { return vStr(a[0].o.(*RType).String()) })
	in("(*reflect.rtype).Kind", func(w *Worker, a []Value) Value { return Value{n: uint64(reflectKind(a[0].o.(*RType)))} })
	in("(internal/reflectlite.rtype).String", func(w *Worker, a []Value) Value {
		return vStr(a[0].o.(*Agg).v[0].o.(*RType).String())
	})
	in("(internal/reflectlite.rtype).Comparable", func(w *Worker, a []Value) Value {
		return vBool(types.Comparable(a[0].o.(*Agg).v[0].o.(*RType).t))
	})
	in("reflect.ValueOf", func(w *Worker, a []Value) Value {
		var t Value
		if a[0].o != nil {
			t = Value{n: uint64(a[0].o.(*Iface).t.id)}
		}
		return Value{o: &Agg{[]Value{t, a[0], {}}}}
	})

	// ---- strconv / strings fast paths
	fast := func(name string, f func(w *Worker, a []Value) (Value, bool)) { fastpaths[name] = f }
	ss := func(name string, f func(string) string) {
		fast(name, func(w *Worker, a []Value) (Value, bool) {
			s, ok := concS(a[0])
			if !ok {
				return Value{}, false
			}
			return vStr(f(s)), true
		})
	}
	ss("strings.ToLower", strings.ToLower)
	ss("strings.ToUpper", strings.ToUpper)
	ss("strings.TrimSpace", strings.TrimSpace)
	ss("strings.Title", strings.Title)
	ss2 := func(name string, f func(a, b string) Value) {
		fast(name, func(w *Worker, a []Value) (Value, bool) {
			s, ok := concS(a[0])
			t, ok2 := concS(a[1])
			if !ok || !ok2 {
				return Value{}, false
			}
			return f(s, t), true
		})
	}
	ss2("strings.Trim", func(a, b string) Value { return vStr(strings.Trim(a, b)) })
	ss2("strings.TrimLeft", func(a, b string) Value { return vStr(strings.TrimLeft(a, b)) })
	ss2("strings.TrimRight", func(a, b string) Value { return vStr(strings.TrimRight(a, b)) })
	ss2("strings.TrimSuffix", func(a, b string) Value { return vStr(strings.TrimSuffix(a, b)) })
	ss2("strings.TrimPrefix", func(a, b string) Value { return vStr(strings.TrimPrefix(a, b)) })
	ss2("strings.HasPrefix", func(a, b string) Value { return vBool(strings.HasPrefix(a, b)) })
	ss2("strings.HasSuffix", func(a, b string) Value { return vBool(strings.HasSuffix(a, b)) })
	ss2("strings.Contains", func(a, b string) Value { return vBool(strings.Contains(a, b)) })
	ss2("strings.LastIndex", func(a, b string) Value { return vInt(int64(strings.LastIndex(a, b))) })
	fast("strconv.Itoa", func(w *Worker, a []Value) (Value, bool) {
		if a[0].o != nil {
			return Value{}, false
		}
		return vStr(strconv.Itoa(int(a[0].n))), true
	})
	fast("strconv.FormatFloat", func(w *Worker, a []Value) (Value, bool) {
		return vStr(strconv.FormatFloat(a[0].f64(), byte(a[1].n), int(int64(a[2].n)), int(a[3].n))), true
	})
	fast("strconv.AppendFloat", func(w *Worker, a []Value) (Value, bool) {
		s := strconv.FormatFloat(a[1].f64(), byte(a[2].n), int(int64(a[3].n)), int(a[4].n))
		tb := w.prog.rt(types.NewSlice(types.Typ[types.Uint8]))
		return w.appendSlice(a[0], vStr(s), tb, w.prog.rt(typString)), true
	})
	fast("unicode/utf8.ValidString", func(w *Worker, a []Value) (Value, bool) {
		s, ok := concS(a[0])
		return vBool(utf8.ValidString(s)), ok
	})
}

func swapper(w *Worker, a []Value) Value {
	s := sl(a[0].o.(*Iface).v)
	return Value{o: &Closure{nat: &natMethod{name: "swap", f: func(w *Worker, args []Value) Value {
		i, j := int(args[0].n), int(args[1].n)
		if s == nil || i >= s.len || j >= s.len {
			panic(goPanic{kind: "rt", msg: "index out of range"})
		}
		if w.raceOn {
			w.raceAccess(s.obj, s.off+i*s.esz, s.esz, true)
			w.raceAccess(s.obj, s.off+j*s.esz, s.esz, true)
		}
		for k := 0; k < s.esz; k++ {
			x, y := s.obj.get(s.off+i*s.esz+k), s.obj.get(s.off+j*s.esz+k)
			w.set(s.obj, s.off+i*s.esz+k, y)
			w.set(s.obj, s.off+j*s.esz+k, x)
		}
		return Value{}
	}}}}
}

func (w *Worker) idxByte(s *Str, c Value) int {
	if s.t == nil && c.o == nil {
		return strings.IndexByte(s.s, byte(c.n))
	}
	for i := range []byte(s.s) {
		if w.eqByte(s.at(i), c) {
			return i
		}
	}
	return -1
}

var _ = sort.Strings

func (w *Worker) rtypeOf(x Value, pkg, name string, ptr bool) Value {
	if x.o == nil {
		return Value{}
	}
	t := x.o.(*Iface).t
	var obj types.Type
	for _, pk := range w.prog.prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			obj = pk.Pkg.Scope().Lookup(name).Type()
		}
	}
	if ptr {
		return Value{o: &Iface{w.prog.rt(types.NewPointer(obj)), Value{o: t}}}
	}
	return Value{o: &Iface{w.prog.rt(obj), Value{o: &Agg{[]Value{{o: t}}}}}}
}

func reflectKind(t *RType) reflect.Kind {
	switch t.kind {
	case KBool:
		return reflect.Bool
	case KString:
		return reflect.String
	case KFloat:
		if t.w == 32 {
			return reflect.Float32
		}
		return reflect.Float64
	case KInt:
		if b, ok := t.t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int, types.UntypedInt:
				return reflect.Int
			case types.Int8:
				return reflect.Int8
			case types.Int16:
				return reflect.Int16
			case types.Int32, types.UntypedRune:
				return reflect.Int32
			case types.Int64:
				return reflect.Int64
			case types.Uint:
				return reflect.Uint
			case types.Uint8:
				return reflect.Uint8
			case types.Uint16:
				return reflect.Uint16
			case types.Uint32:
				return reflect.Uint32
			case types.Uint64:
				return reflect.Uint64
			case types.Uintptr:
				return reflect.Uintptr
			}
		}
	case KPtr:
		return reflect.Ptr
	case KSlice:
		return reflect.Slice
	case KMap:
		return reflect.Map
	case KChan:
		return reflect.Chan
	case KFunc:
		return reflect.Func
	case KStruct:
		return reflect.Struct
	case KArray:
		return reflect.Array
	case KIface:
		return reflect.Interface
	}
	return reflect.Invalid
}
