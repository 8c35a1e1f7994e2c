package main

import (
	"fmt"
	"go/token"
	"math"
	"unicode/utf8"
)

type Frame struct {
	fn      *Func
	regs    []Value
	pc      int32
	dst     int32
	parent  *Frame
	shared  bool
	isDefer bool
	defers  []deferRec
	pan     *panicRec
	post    func(w *Worker, v Value) Value
}

type deferRec struct {
	fn      *Func
	cl      *Closure
	args    []Value
	builtin string
	argT    []*RType
}

type panicRec struct {
	val       Value // Iface value
	recovered bool
	desc      string
	where     string
	goexit    bool
}

// goPanic is thrown by instruction helpers: a run-time panic of the target program.
type goPanic struct {
	kind string
	msg  string
	val  *Value
}

type G struct {
	id      int
	top     *Frame
	blocked bool
	wait    func(w *Worker) bool // may proceed?
	recvOn  []*Chan
	vc      vclock
	name    string
}

// SymPtr is a pointer to element idx (symbolic) of an element sequence.
type SymPtr struct {
	obj  *Obj
	base int
	esz  int
	n    int
	idx  *Term // 64 bits, already known < n
	off  int   // slot offset inside the element
}

// pathEnd terminates the current path.
type pathEnd struct {
	kind string // "done","assume","violation","budget","unsupported","deadlock"
	msg  string
}

func (w *Worker) val(fr *Frame, i int32) Value {
	if i >= 0 {
		return fr.regs[i]
	}
	if i > globalBase {
		return fr.fn.consts[^i]
	}
	return Value{o: w.global(int(globalBase - i))}
}

func (w *Worker) global(i int) *Obj {
	if i < len(w.globals) {
		if o := w.globals[i]; o != nil {
			return o
		}
	}
	for len(w.globals) <= i {
		w.globals = append(w.globals, nil)
	}
	w.prog.mu.RLock()
	g := w.prog.glist[i]
	w.prog.mu.RUnlock()
	t := w.prog.rt(g.Type()).elem
	o := w.allocType(t)
	o.epoch = 0
	w.globals[i] = o
	return o
}

func norm(n uint64, t *RType) uint64 {
	switch t.w {
	case 64:
		return n
	case 32:
		if t.signed {
			return uint64(int64(int32(n)))
		}
		return uint64(uint32(n))
	case 8:
		if t.signed {
			return uint64(int64(int8(n)))
		}
		return uint64(uint8(n))
	case 16:
		if t.signed {
			return uint64(int64(int16(n)))
		}
		return uint64(uint16(n))
	}
	return n
}

func (w *Worker) newFrame(fn *Func, parent *Frame, dst int32) *Frame {
	fn.compile()
	if len(fn.code) == 0 {
		panic(pathEnd{"unsupported", "no body: " + fn.name})
	}
	if l := w.fpool[fn]; len(l) > 0 {
		f := l[len(l)-1]
		w.fpool[fn] = l[:len(l)-1]
		regs := f.regs
		for i := range regs {
			regs[i] = Value{}
		}
		*f = Frame{fn: fn, regs: regs, parent: parent, dst: dst}
		return f
	}
	w.covered(fn)
	return &Frame{fn: fn, regs: make([]Value, fn.nregs), parent: parent, dst: dst}
}

func (w *Worker) freeFrame(f *Frame) {
	if f.shared || f.pan != nil || f.defers != nil {
		return
	}
	l := w.fpool[f.fn]
	if len(l) < 64 {
		f.parent = nil
		w.fpool[f.fn] = append(l, f)
	}
}

// own makes the top frame private to the running state.
func (w *Worker) own(g *G) *Frame {
	f := g.top
	if f == nil || !f.shared {
		return f
	}
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.defers = append([]deferRec(nil), f.defers...)
	n.shared = false
	if f.pan != nil {
		p := *f.pan
		n.pan = &p
	}
	if n.parent != nil {
		n.parent.shared = true
	}
	g.top = &n
	return &n
}

// run executes the current goroutine(s) until the path ends.
func (w *Worker) run() {
	for {
		if w.runSome() {
			return
		}
	}
}

// runSome executes until the path ends (true) or a target panic was raised (false).
func (w *Worker) runSome() (ended bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case goPanic:
				w.raise(r)
				ended = w.ended
			case pathEnd:
				w.endPath(r)
				ended = true
			case engineErr:
				w.endPath(pathEnd{"unsupported", "engine: " + string(r) + " at " + w.where()})
				ended = true
			case switchG:
				ended = false
			default:
				if w.debug {
					panic(r)
				}
				w.endPath(pathEnd{"unsupported", fmt.Sprintf("engine crash: %v at %s", r, w.where())})
				ended = true
			}
		}
	}()
	w.exec()
	return true
}

type switchG struct{}

func (w *Worker) where() string {
	if w.cur == nil || w.cur.top == nil {
		return "?"
	}
	s := ""
	n := 0
	for f := w.cur.top; f != nil && n < 14; f = f.parent {
		pos := token.NoPos
		if int(f.pc) < len(f.fn.code) && f.pc >= 0 {
			pos = f.fn.code[f.pc].pos
			for k := f.pc; k >= 0 && !pos.IsValid(); k-- {
				pos = f.fn.code[k].pos
			}
		}
		p := w.prog.prog.Fset.Position(pos)
		if s != "" {
			s += " < "
		}
		s += fmt.Sprintf("%s(%s:%d)", shortName(f.fn.name), base(p.Filename), p.Line)
		n++
	}
	return s
}

func base(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

func shortName(s string) string {
	const p = "github.com/bytesparadise/libasciidoc/"
	r := ""
	for {
		i := indexOf(s, p)
		if i < 0 {
			return r + s
		}
		r += s[:i]
		s = s[i+len(p):]
	}
}

func indexOf(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func (w *Worker) exec() {
	if w.cur.top == nil {
		// resumed at a scheduling choice made when a goroutine ended
		w.steps++
		w.insStep = w.steps
		w.schedule()
	}
	g := w.cur
	fr := w.own(g)
	code := fr.fn.code
	for {
		ins := &code[fr.pc]
		w.steps++
		if w.steps > w.budget {
			panic(pathEnd{"budget", "step budget exhausted at " + w.where()})
		}
		if len(w.insDecs) > 0 {
			if w.insStep != w.steps {
				w.insDecs = w.insDecs[:0]
				w.insPos = 0
			}
		}
		w.insStep = w.steps
		switch ins.op {
		case IAlloc:
			fr.regs[ins.dst] = Value{o: w.allocType(ins.t)}
			fr.pc++
		case IBinInt:
			a, b := w.val(fr, ins.a), w.val(fr, ins.b)
			if a.o == nil && b.o == nil {
				fr.regs[ins.dst] = binInt(token.Token(ins.k), a.n, b.n, ins.t, ins.t2)
			} else {
				v := w.binIntSym(token.Token(ins.k), a, b, ins.t, ins.t2)
				fr = w.own(g)
				fr.regs[ins.dst] = v
			}
			fr.pc++
		case IIf:
			c := w.val(fr, ins.a)
			info := ins.aux.(*IfInfo)
			if t, ok := c.o.(*Term); ok {
				if q := w.quick(t); q >= 0 && !w.replaying() {
					c.n = uint64(q)
				} else if w.merge && w.region(g, fr, info, t) {
					fr = w.own(g)
					continue
				} else {
					c.n = b2u(w.decide(t))
					fr = w.own(g)
				}
			}
			if c.n != 0 {
				w.takeEdge(fr, &info.t)
			} else {
				w.takeEdge(fr, &info.f)
			}
		case IJump:
			w.takeEdge(fr, ins.aux.(*Edge))
		case ICall:
			ci := ins.aux.(*CallInfo)
			if ci.builtin != "" {
				v := w.builtin(fr, ci)
				fr = w.own(g)
				fr.regs[ins.dst] = v
				fr.pc++
				break
			}
			w.doCall(g, fr, ins, ci)
			if w.ended {
				return
			}
			g = w.cur
			fr = w.own(g)
			code = fr.fn.code
		case IReturn:
			var rv Value
			if ins.aux == nil {
				if ins.k == 1 {
					rv = w.val(fr, ins.a)
				}
			} else {
				rs := ins.aux.([]int32)
				tp := make(Tuple, len(rs))
				for i, r := range rs {
					tp[i] = w.val(fr, r)
				}
				rv = Value{o: tp}
			}
			if !w.doReturn(g, fr, rv) {
				if w.ended {
					return
				}
				w.schedule()
				g = w.cur
			}
			fr = w.own(g)
			code = fr.fn.code
		case IFieldAddr:
			p := w.val(fr, ins.a)
			switch o := p.o.(type) {
			case nil:
				panic(goPanic{kind: "nil"})
			case *Obj:
				fr.regs[ins.dst] = Value{o: o, n: p.n + uint64(ins.k)}
			case *SymPtr:
				q := *o
				q.off += ins.k
				fr.regs[ins.dst] = Value{o: &q}
			default:
				panic(engineErr(fmt.Sprintf("fieldaddr on %T", p.o)))
			}
			fr.pc++
		case ILoad:
			p := w.val(fr, ins.a)
			switch o := p.o.(type) {
			case nil:
				panic(goPanic{kind: "nil"})
			case *Obj:
				if w.raceOn {
					w.raceAccess(o, int(p.n), ins.t.slots, false)
				}
				if o.bytes == nil && !ins.t.isAgg() {
					fr.regs[ins.dst] = o.vals[p.n]
				} else {
					fr.regs[ins.dst] = w.load(o, int(p.n), ins.t)
				}
			case *SymPtr:
				v := w.symLoad(o, ins.t)
				fr = w.own(g)
				fr.regs[ins.dst] = v
			default:
				panic(engineErr(fmt.Sprintf("load on %T", p.o)))
			}
			fr.pc++
		case IStore:
			p := w.val(fr, ins.a)
			v := w.val(fr, ins.b)
			switch o := p.o.(type) {
			case nil:
				panic(goPanic{kind: "nil"})
			case *Obj:
				if w.raceOn {
					w.raceAccess(o, int(p.n), ins.t.slots, true)
				}
				if ins.t.isAgg() {
					w.store(o, int(p.n), ins.t, v)
				} else {
					w.set(o, int(p.n), v)
				}
			case *SymPtr:
				i := w.concretize(Value{o: o.idx}, 64)
				fr = w.own(g)
				w.store(o.obj, o.base+int(i)*o.esz+o.off, ins.t, v)
			default:
				panic(engineErr(fmt.Sprintf("store on %T", p.o)))
			}
			fr.pc++
		case IExtract:
			fr.regs[ins.dst] = w.val(fr, ins.a).o.(Tuple)[ins.k]
			fr.pc++
		case IField:
			fr.regs[ins.dst] = aggGet(w.val(fr, ins.a), ins.k, ins.t)
			fr.pc++
		case IMakeIface:
			fr.regs[ins.dst] = Value{o: &Iface{ins.t, w.val(fr, ins.a)}}
			fr.pc++
		case IChangeType:
			fr.regs[ins.dst] = w.val(fr, ins.a)
			fr.pc++
		case ITypeAssert:
			v := w.typeAssert(w.val(fr, ins.a), ins.t, ins.k == 1)
			fr.regs[ins.dst] = v
			fr.pc++
		default:
			w.slow(g, fr, ins)
			if w.ended {
				return
			}
			g = w.cur
			fr = w.own(g)
			code = fr.fn.code
		}
	}
}

func (w *Worker) takeEdge(fr *Frame, e *Edge) {
	switch len(e.moves) {
	case 0:
	case 1:
		m := e.moves[0]
		fr.regs[m.dst] = w.val(fr, m.src)
	default:
		var tmp [16]Value
		t := tmp[:0]
		for _, m := range e.moves {
			t = append(t, w.val(fr, m.src))
		}
		for i, m := range e.moves {
			fr.regs[m.dst] = t[i]
		}
	}
	fr.pc = e.pc
}

// slow executes the less frequent instructions.
func (w *Worker) slow(g *G, fr *Frame, ins *Ins) {
	var v Value
	switch ins.op {
	case INop:
		fr.pc++
		return
	case IBinFloat:
		v = w.binFloat(token.Token(ins.k), w.val(fr, ins.a), w.val(fr, ins.b), ins.t)
	case IBinStr:
		v = w.binStr(token.Token(ins.k), str(w.val(fr, ins.a)), str(w.val(fr, ins.b)))
	case IBinBool:
		a, b := w.boolTerm(w.val(fr, ins.a)), w.boolTerm(w.val(fr, ins.b))
		switch token.Token(ins.k) {
		case token.AND, token.LAND:
			v = vBV(w.tt.And(a, b), false)
		case token.OR, token.LOR:
			v = vBV(w.tt.Or(a, b), false)
		default:
			panic(engineErr("bool op"))
		}
	case IEq:
		a, b := w.val(fr, ins.a), w.val(fr, ins.b)
		if ins.k2 == 1 {
			a = Value{o: &Iface{ins.t2, a}}
		} else if ins.k2 == 2 {
			b = Value{o: &Iface{ins.t2, b}}
		}
		t := w.eq(ins.t, a, b)
		if ins.k == 1 {
			t = w.tt.Not(t)
		}
		v = vBV(t, false)
	case IConvert:
		v = w.convert(w.val(fr, ins.a), ins.t, ins.t2)
	case INot:
		x := w.val(fr, ins.a)
		if t, ok := x.o.(*Term); ok {
			v = vBV(w.tt.Not(t), false)
		} else {
			v = Value{n: 1 - x.n}
		}
	case INeg:
		x := w.val(fr, ins.a)
		if ins.t.kind == KFloat {
			v = vFloat(-x.f64())
		} else if t, ok := x.o.(*Term); ok {
			v = vBV(w.tt.Bin(OSub, w.tt.Const(t.w, 0), t), ins.t.signed)
		} else {
			v = Value{n: norm(-x.n, ins.t)}
		}
	case IXor:
		x := w.val(fr, ins.a)
		if t, ok := x.o.(*Term); ok {
			v = vBV(w.tt.Bin(OXor, t, w.tt.Const(t.w, mask(t.w))), ins.t.signed)
		} else {
			v = Value{n: norm(^x.n, ins.t)}
		}
	case IIndex:
		v = w.index(w.val(fr, ins.a), w.val(fr, ins.b), ins.t, ins.t2)
	case IIndexAddr:
		v = w.indexAddr(w.val(fr, ins.a), w.val(fr, ins.b), ins.t, ins.t2, ins.k)
	case ILookup:
		v = w.lookup(w.val(fr, ins.a), w.val(fr, ins.b), ins)
	case IMakeChan:
		n := w.concInt(w.val(fr, ins.a))
		w.chanSeq++
		v = Value{o: &Chan{cap: int(n), epoch: w.epoch, id: w.chanSeq}}
	case IMakeClosure:
		ci := ins.aux.(*CallInfo)
		bs := make([]Value, len(ci.args))
		for i, a := range ci.args {
			bs[i] = w.val(fr, a)
		}
		v = Value{o: &Closure{fn: ci.fn, binds: bs}}
	case IMakeMap:
		v = Value{o: w.newMap(ins.t.key, ins.t.elem)}
	case IMakeSlice:
		n := int64(w.concInt(w.val(fr, ins.a)))
		c := int64(w.concInt(w.val(fr, ins.b)))
		if n < 0 || n > 1<<40 {
			panic(goPanic{kind: "rt", msg: "makeslice: len out of range"})
		}
		if c < n || c > 1<<40 {
			panic(goPanic{kind: "rt", msg: "makeslice: cap out of range"})
		}
		if c*int64(max(1, ins.t.slots)) > w.maxAlloc {
			panic(pathEnd{"budget", "allocation bound exceeded at " + w.where()})
		}
		v = Value{o: &Slice{obj: w.newElemObj(ins.t, int(c)), len: int(n), cap: int(c), esz: ins.t.slots}}
	case IMapUpdate:
		m := w.val(fr, ins.a)
		if m.o == nil {
			panic(goPanic{kind: "plain", msg: "assignment to entry in nil map"})
		}
		w.mapSet(m.o.(*Map), w.val(fr, ins.b), w.val(fr, ins.c))
		fr = w.own(g)
		fr.pc++
		return
	case INext:
		v = w.next(w.val(fr, ins.a).o.(*MapIter))
	case IPanic:
		x := w.val(fr, ins.a)
		panic(goPanic{kind: "val", val: &x})
	case IRange:
		x := w.val(fr, ins.a)
		if ins.t.kind == KString {
			v = Value{o: &MapIter{isStr: true, str: str(x), epoch: w.epoch}}
		} else {
			it := &MapIter{epoch: w.epoch}
			if x.o != nil {
				it.m = x.o.(*Map)
				w.raceMap(it.m, false)
			}
			v = Value{o: it}
		}
	case IRunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			w.runDefer(g, fr, d)
			return
		}
		fr.defers = nil
		fr.pc++
		return
	case IDefer:
		ci := ins.aux.(*CallInfo)
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], w.mkDefer(fr, ci))
		fr.pc++
		return
	case IGo:
		w.spawn(fr, ins.aux.(*CallInfo))
		fr.pc++
		return
	case ISend:
		if w.send(g, w.val(fr, ins.a), w.val(fr, ins.b)) {
			fr.pc++
		} else {
			w.schedule()
		}
		return
	case IRecv:
		x, ok, done := w.recv(g, w.val(fr, ins.a))
		if !done {
			w.schedule()
			return
		}
		if ins.k == 1 {
			v = Value{o: Tuple{x, vBool(ok)}}
		} else {
			v = x
		}
	case ISelect:
		var done bool
		v, done = w.selectOp(g, fr, ins.aux.(*SelInfo))
		if !done {
			w.schedule()
			return
		}
		fr = w.own(g)
	case ISlice:
		v = w.slice3(fr, ins)
	case ISliceToArr:
		s := sl(w.val(fr, ins.a))
		n := 0
		if s != nil {
			n = s.len
		}
		if n < ins.k {
			panic(goPanic{kind: "rt", msg: "cannot convert slice to array pointer"})
		}
		if s != nil {
			v = Value{o: s.obj, n: uint64(s.off)}
		}
	default:
		panic(engineErr(fmt.Sprintf("op %d", ins.op)))
	}
	fr = w.own(g)
	fr.regs[ins.dst] = v
	fr.pc++
}

// ---- calls

func (w *Worker) doCall(g *G, fr *Frame, ins *Ins, ci *CallInfo) {
	var fn *Func
	var binds []Value
	var recv Value
	hasRecv := false
	switch {
	case ci.fn != nil:
		fn = ci.fn
	case ci.invoke:
		x := w.val(fr, ci.recv)
		if x.o == nil {
			panic(goPanic{kind: "nil"})
		}
		i := x.o.(*Iface)
		fn = w.findMethod(i.t, ci)
		recv = i.v
		hasRecv = true
	default:
		f := w.val(fr, ci.fv)
		if f.o == nil {
			panic(goPanic{kind: "nil"})
		}
		cl := f.o.(*Closure)
		if cl.nat != nil {
			args := make([]Value, len(ci.args))
			for i, a := range ci.args {
				args[i] = w.val(fr, a)
			}
			v := cl.nat.f(w, args)
			fr = w.own(g)
			fr.regs[ins.dst] = v
			fr.pc++
			return
		}
		fn = cl.fn
		binds = cl.binds
	}
	if fn.model != nil {
		fn = fn.model
	}
	if fn.in != nil {
		var buf [8]Value
		args := buf[:0]
		if hasRecv {
			args = append(args, recv)
		}
		for _, a := range ci.args {
			args = append(args, w.val(fr, a))
		}
		args = append(args, binds...)
		w.curFn = fn
		w.curCall = ci
		v := fn.in(w, args)
		if w.ended {
			return
		}
		fr = w.own(g)
		if w.tail != nil {
			t := w.tail
			w.tail = nil
			fr.pc++
			w.push(g, t.fn, t.args, t.binds, ins.dst, t.post)
			return
		}
		if ins.dst >= 0 {
			fr.regs[ins.dst] = v
		}
		fr.pc++
		return
	}
	if fn.stub {
		w.stubCheck(fn)
		w.covered(fn)
		if ins.dst >= 0 {
			fr.regs[ins.dst] = zeroResults(fn)
		}
		fr.pc++
		return
	}
	if fn.fast != nil {
		var buf [8]Value
		args := buf[:0]
		if hasRecv {
			args = append(args, recv)
		}
		for _, a := range ci.args {
			args = append(args, w.val(fr, a))
		}
		if v, ok := fn.fast(w, args); ok {
			if ins.dst >= 0 {
				fr.regs[ins.dst] = v
			}
			fr.pc++
			return
		}
	}
	w.depth(fr)
	nf := w.newFrame(fn, fr, ins.dst)
	k := 0
	if hasRecv {
		nf.regs[0] = recv
		k = 1
	}
	for _, a := range ci.args {
		nf.regs[k] = w.val(fr, a)
		k++
	}
	for _, b := range binds {
		nf.regs[k] = b
		k++
	}
	fr.pc++
	g.top = nf
}

func (w *Worker) stubCheck(fn *Func) {
	if fn.unsup && w.job.name != "init" {
		panic(pathEnd{"unsupported", "library outside the encoding: " + fn.name})
	}
}

func (w *Worker) depth(fr *Frame) {
	if w.steps&1023 != 0 {
		return
	}
	d := 0
	for f := fr; f != nil; f = f.parent {
		d++
	}
	if d > 20000 {
		panic(pathEnd{"budget", "stack depth bound exceeded at " + w.where()})
	}
}

func zeroResults(fn *Func) Value {
	if fn.nres > 1 {
		t := make(Tuple, fn.nres)
		for i, r := range fn.resTypes {
			t[i] = zeroVal(r)
		}
		return Value{o: t}
	}
	if fn.nres == 1 {
		return zeroVal(fn.res)
	}
	return Value{}
}

func zeroVal(r *RType) Value {
	if r.isAgg() {
		return Value{o: &Agg{make([]Value, r.slots)}}
	}
	return Value{}
}

type tailCall struct {
	fn    *Func
	args  []Value
	binds []Value
	post  func(w *Worker, v Value) Value
}

// push calls fn with the given arguments on g (handles intrinsics and stubs).
func (w *Worker) push(g *G, fn *Func, args, binds []Value, dst int32, post func(*Worker, Value) Value) *Frame {
	if fn.model != nil {
		fn = fn.model
	}
	fr := g.top
	if fn.in != nil || fn.stub {
		var v Value
		if fn.stub {
			w.stubCheck(fn)
			v = zeroResults(fn)
		} else {
			w.curFn = fn
			w.curCall = nil
			v = fn.in(w, append(append([]Value(nil), args...), binds...))
			fr = w.own(g)
			if w.tail != nil {
				t := w.tail
				w.tail = nil
				p2 := t.post
				p := post
				return w.push(g, t.fn, t.args, t.binds, dst, func(w *Worker, v Value) Value {
					if p2 != nil {
						v = p2(w, v)
					}
					if p != nil {
						v = p(w, v)
					}
					return v
				})
			}
		}
		if post != nil {
			v = post(w, v)
		}
		if fr != nil && dst >= 0 {
			fr.regs[dst] = v
		}
		return nil
	}
	nf := w.newFrame(fn, fr, dst)
	nf.post = post
	k := copy(nf.regs, args)
	copy(nf.regs[k:], binds)
	g.top = nf
	return nf
}

// doReturn returns rv from the top frame; false when the goroutine finished.
func (w *Worker) doReturn(g *G, fr *Frame, rv Value) bool {
	p := fr.parent
	post := fr.post
	if post != nil {
		rv = post(w, rv)
	}
	isDefer := fr.isDefer
	dst := fr.dst
	w.freeFrame(fr)
	if p == nil {
		g.top = nil
		w.result = rv
		w.exitG(g)
		return false
	}
	g.top = p
	np := w.own(g)
	if isDefer {
		if np.pan != nil {
			if np.pan.recovered {
				np.pan = nil
				// run the remaining defers, then return through the recover block
				w.finishRecovered(g, np)
			} else {
				w.unwind(g)
			}
			return g.top != nil
		}
		return true // IRunDefers is executed again
	}
	if dst >= 0 {
		np.regs[dst] = rv
	}
	return true
}

// finishRecovered: function np recovered from a panic; remaining defers run, then it returns.
func (w *Worker) finishRecovered(g *G, np *Frame) {
	if np.fn.recoverPC >= 0 {
		// The recover block starts by RunDefers-free loads of the results: run pending defers first.
		if n := len(np.defers); n > 0 {
			d := np.defers[n-1]
			np.defers = np.defers[:n-1]
			np.pan = &panicRec{recovered: true}
			w.runDefer(g, np, d)
			return
		}
		np.pc = np.fn.recoverPC
		return
	}
	if n := len(np.defers); n > 0 {
		d := np.defers[n-1]
		np.defers = np.defers[:n-1]
		np.pan = &panicRec{recovered: true}
		w.runDefer(g, np, d)
		return
	}
	if !w.doReturn(g, np, zeroResults(np.fn)) {
		if !w.ended {
			w.schedule()
		}
	}
}

func (w *Worker) mkDefer(fr *Frame, ci *CallInfo) deferRec {
	d := deferRec{builtin: ci.builtin, argT: ci.argT}
	if ci.invoke {
		x := w.val(fr, ci.recv)
		if x.o == nil {
			panic(goPanic{kind: "nil"})
		}
		i := x.o.(*Iface)
		d.fn = w.findMethod(i.t, ci)
		d.args = append(d.args, i.v)
	} else if ci.fn != nil {
		d.fn = ci.fn
	} else if ci.dyn {
		f := w.val(fr, ci.fv)
		if f.o != nil {
			d.cl = f.o.(*Closure)
		}
	}
	for _, a := range ci.args {
		d.args = append(d.args, w.val(fr, a))
	}
	return d
}

func (w *Worker) runDefer(g *G, fr *Frame, d deferRec) {
	if d.builtin != "" {
		w.builtinVals(d.builtin, d.args, d.argT, nil)
		if fr.pan != nil {
			if fr.pan.recovered {
				fr.pan = nil
				w.finishRecovered(g, fr)
			} else {
				w.unwind(g)
			}
		}
		return
	}
	fn := d.fn
	var binds []Value
	if fn == nil {
		if d.cl == nil {
			panic(goPanic{kind: "nil"})
		}
		fn = d.cl.fn
		binds = d.cl.binds
	}
	nf := w.push(g, fn, d.args, binds, -1, nil)
	if nf == nil {
		// executed inline
		fr = w.own(g)
		if fr.pan != nil {
			if fr.pan.recovered {
				fr.pan = nil
				w.finishRecovered(g, fr)
			} else {
				w.unwind(g)
			}
		}
		return
	}
	nf.isDefer = true
}

// ---- panics

func (w *Worker) raise(p goPanic) {
	w.insDecs = w.insDecs[:0]
	pr := &panicRec{where: w.where()}
	switch p.kind {
	case "val":
		pr.val = *p.val
		pr.desc = "panic: " + w.descValue(pr.val)
		if pr.val.o == nil {
			pr.val = w.rtError("panic called with nil argument")
		}
	case "nil":
		pr.val = w.rtError("invalid memory address or nil pointer dereference")
		pr.desc = "runtime error: invalid memory address or nil pointer dereference"
	case "plain":
		pr.val = w.rtError(p.msg)
		pr.desc = p.msg
	default:
		pr.val = w.rtError(p.msg)
		pr.desc = "runtime error: " + p.msg
	}
	g := w.cur
	fr := w.own(g)
	fr.pan = pr
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				w.endPath(r)
			case goPanic:
				w.raise(r)
			default:
				panic(r)
			}
		}
	}()
	w.unwind(g)
	if !w.ended && g.top == nil {
		w.schedule()
	}
}

// unwind continues the panic recorded in the top frame.
func (w *Worker) unwind(g *G) {
	fr := w.own(g)
	p := fr.pan
	for {
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			fr.pan = p
			w.runDefer(g, fr, d)
			return
		}
		// pop the frame; a frame that was itself running as a deferred call of a panicking
		// parent replaces the parent's panic
		parent := fr.parent
		g.top = parent
		if parent == nil {
			w.endPath(pathEnd{"panic", p.desc + " at " + p.where})
			return
		}
		fr = w.own(g)
		fr.pan = p
	}
}

func (w *Worker) rtError(msg string) Value {
	t := w.rtErrType
	if t == nil {
		return Value{o: &Iface{w.prog.rt(typString), vStr(msg)}}
	}
	return Value{o: &Iface{t, Value{o: &Agg{[]Value{vStr(msg)}}}}}
}

func (w *Worker) descValue(v Value) string {
	if v.o == nil {
		return "nil"
	}
	i, ok := v.o.(*Iface)
	if !ok {
		return "?"
	}
	switch i.t.kind {
	case KString:
		return w.concStr(str(i.v))
	}
	return i.t.String() + " " + w.descDeep(i.v, 0)
}

func (w *Worker) descDeep(v Value, d int) string {
	if d > 3 {
		return ""
	}
	switch o := v.o.(type) {
	case *Str:
		return w.concStr(o)
	case *Iface:
		return o.t.String() + ":" + w.descDeep(o.v, d+1)
	case *Agg:
		s := ""
		for _, x := range o.v {
			if r := w.descDeep(x, d+1); r != "" {
				s += r + " "
			}
		}
		return s
	case *Obj:
		s := ""
		if o.vals != nil {
			for i, x := range o.vals {
				if i > 6 {
					break
				}
				if r := w.descDeep(x, d+1); r != "" {
					s += r + " "
				}
			}
		}
		return s
	}
	return ""
}

// concStr shows a string under the current model (for messages only).
func (w *Worker) concStr(s *Str) string {
	if s.t == nil {
		return s.s
	}
	b := []byte(s.s)
	for i, t := range s.t {
		if t != nil {
			b[i] = byte(w.tt.Eval(t, w.pc.model))
		}
	}
	return string(b)
}

// ---- arithmetic

func binInt(op token.Token, a, b uint64, t, t2 *RType) Value {
	switch op {
	case token.ADD:
		return Value{n: norm(a+b, t)}
	case token.SUB:
		return Value{n: norm(a-b, t)}
	case token.MUL:
		return Value{n: norm(a*b, t)}
	case token.QUO:
		if b == 0 {
			panic(goPanic{kind: "rt", msg: "integer divide by zero"})
		}
		if t.signed {
			if int64(b) == -1 {
				return Value{n: norm(-a, t)}
			}
			return Value{n: norm(uint64(int64(a)/int64(b)), t)}
		}
		return Value{n: norm(a/b, t)}
	case token.REM:
		if b == 0 {
			panic(goPanic{kind: "rt", msg: "integer divide by zero"})
		}
		if t.signed {
			if int64(b) == -1 {
				return Value{}
			}
			return Value{n: norm(uint64(int64(a)%int64(b)), t)}
		}
		return Value{n: norm(a%b, t)}
	case token.AND:
		return Value{n: a & b}
	case token.OR:
		return Value{n: a | b}
	case token.XOR:
		return Value{n: norm(a^b, t)}
	case token.AND_NOT:
		return Value{n: a &^ b}
	case token.SHL:
		if t2 != nil && t2.signed && int64(b) < 0 {
			panic(goPanic{kind: "rt", msg: "negative shift amount"})
		}
		if b >= 64 {
			return Value{}
		}
		return Value{n: norm(a<<b, t)}
	case token.SHR:
		if t2 != nil && t2.signed && int64(b) < 0 {
			panic(goPanic{kind: "rt", msg: "negative shift amount"})
		}
		if t.signed {
			if b >= 64 {
				b = 63
			}
			return Value{n: uint64(int64(a) >> b)}
		}
		if b >= 64 {
			return Value{}
		}
		return Value{n: a >> b}
	case token.EQL:
		return vBool(a == b)
	case token.NEQ:
		return vBool(a != b)
	}
	if t.signed {
		x, y := int64(a), int64(b)
		switch op {
		case token.LSS:
			return vBool(x < y)
		case token.LEQ:
			return vBool(x <= y)
		case token.GTR:
			return vBool(x > y)
		case token.GEQ:
			return vBool(x >= y)
		}
	}
	switch op {
	case token.LSS:
		return vBool(a < b)
	case token.LEQ:
		return vBool(a <= b)
	case token.GTR:
		return vBool(a > b)
	case token.GEQ:
		return vBool(a >= b)
	}
	panic(engineErr("binop " + op.String()))
}

// symBin builds the term of a binary integer operation without deciding anything.
// ok=false: the operation needs a decision first (division, shifts by symbolic signed counts).
func (w *Worker) symBin(op token.Token, x, y *Term, signed bool) (*Term, bool) {
	tt := w.tt
	switch op {
	case token.ADD:
		return tt.Bin(OAdd, x, y), true
	case token.SUB:
		return tt.Bin(OSub, x, y), true
	case token.MUL:
		return tt.Bin(OMul, x, y), true
	case token.AND:
		return tt.Bin(OAnd, x, y), true
	case token.OR:
		return tt.Bin(OOr, x, y), true
	case token.XOR:
		return tt.Bin(OXor, x, y), true
	case token.AND_NOT:
		return tt.Bin(OAnd, x, tt.Bin(OXor, y, tt.Const(y.w, mask(y.w)))), true
	case token.EQL:
		return tt.Bin(OEq, x, y), true
	case token.NEQ:
		return tt.Not(tt.Bin(OEq, x, y)), true
	}
	if signed {
		switch op {
		case token.LSS:
			return tt.Bin(OSlt, x, y), true
		case token.LEQ:
			return tt.Bin(OSle, x, y), true
		case token.GTR:
			return tt.Bin(OSlt, y, x), true
		case token.GEQ:
			return tt.Bin(OSle, y, x), true
		}
	}
	switch op {
	case token.LSS:
		return tt.Bin(OUlt, x, y), true
	case token.LEQ:
		return tt.Bin(OUle, x, y), true
	case token.GTR:
		return tt.Bin(OUlt, y, x), true
	case token.GEQ:
		return tt.Bin(OUle, y, x), true
	}
	return nil, false
}

func (w *Worker) binIntSym(op token.Token, a, b Value, t, t2 *RType) Value {
	tt := w.tt
	if op == token.SHL || op == token.SHR {
		x := w.term(a, t.w)
		if b.o == nil {
			cnt := b.n
			if t2 != nil && t2.signed && int64(cnt) < 0 {
				panic(goPanic{kind: "rt", msg: "negative shift amount"})
			}
			if cnt >= uint64(t.w) {
				if op == token.SHR && t.signed {
					cnt = uint64(t.w) - 1
				} else {
					return Value{}
				}
			}
			c := tt.Const(t.w, cnt)
			if op == token.SHL {
				return vBV(tt.Bin(OShl, x, c), t.signed)
			}
			if t.signed {
				return vBV(tt.Bin(OAshr, x, c), true)
			}
			return vBV(tt.Bin(OLshr, x, c), false)
		}
		c := b.o.(*Term)
		if t2.signed && w.decide(tt.Bin(OSlt, c, tt.Const(c.w, 0))) {
			panic(goPanic{kind: "rt", msg: "negative shift amount"})
		}
		big := tt.Not(tt.Bin(OUlt, c, tt.Const(c.w, uint64(t.w))))
		var c2 *Term
		if c.w > t.w {
			c2 = tt.Ite(big, tt.Const(t.w, uint64(t.w)), tt.Trunc(c, t.w))
		} else {
			c2 = tt.Zext(c, t.w)
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if t.signed {
				o = OAshr
			}
		}
		return vBV(tt.Bin(o, x, c2), t.signed)
	}
	x, y := w.term(a, t.w), w.term(b, t.w)
	if op == token.QUO || op == token.REM {
		if w.decide(tt.Bin(OEq, y, tt.Const(t.w, 0))) {
			panic(goPanic{kind: "rt", msg: "integer divide by zero"})
		}
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if t.signed {
			o = OSDiv
			if op == token.REM {
				o = OSRem
			}
		}
		return vBV(tt.Bin(o, x, y), t.signed)
	}
	r, ok := w.symBin(op, x, y, t.signed)
	if !ok {
		panic(engineErr("symbolic " + op.String()))
	}
	return vBV(r, t.signed)
}

func (w *Worker) binFloat(op token.Token, a, b Value, t *RType) Value {
	if a.o != nil || b.o != nil {
		panic(pathEnd{"unsupported", "symbolic float at " + w.where()})
	}
	x, y := a.f64(), b.f64()
	r32 := func(f float64) Value {
		if t.w == 32 {
			f = float64(float32(f))
		}
		return vFloat(f)
	}
	switch op {
	case token.ADD:
		return r32(x + y)
	case token.SUB:
		return r32(x - y)
	case token.MUL:
		return r32(x * y)
	case token.QUO:
		return r32(x / y)
	case token.LSS:
		return vBool(x < y)
	case token.LEQ:
		return vBool(x <= y)
	case token.GTR:
		return vBool(x > y)
	case token.GEQ:
		return vBool(x >= y)
	case token.EQL:
		return vBool(x == y)
	case token.NEQ:
		return vBool(x != y)
	}
	panic(engineErr("float op"))
}

func (w *Worker) binStr(op token.Token, a, b *Str) Value {
	if op == token.ADD {
		return vS(concatStr(a, b))
	}
	if a.t == nil && b.t == nil {
		switch op {
		case token.LSS:
			return vBool(a.s < b.s)
		case token.LEQ:
			return vBool(a.s <= b.s)
		case token.GTR:
			return vBool(a.s > b.s)
		case token.GEQ:
			return vBool(a.s >= b.s)
		}
	}
	var t *Term
	switch op {
	case token.LSS:
		t = w.strLess(a, b, false)
	case token.LEQ:
		t = w.strLess(a, b, true)
	case token.GTR:
		t = w.strLess(b, a, false)
	case token.GEQ:
		t = w.strLess(b, a, true)
	default:
		panic(engineErr("string op"))
	}
	return vBV(t, false)
}

func (w *Worker) strLess(a, b *Str, orEq bool) *Term {
	n := min(len(a.s), len(b.s))
	tt := w.tt
	var r *Term
	if orEq {
		r = tt.Bool(len(a.s) <= len(b.s))
	} else {
		r = tt.Bool(len(a.s) < len(b.s))
	}
	for i := n - 1; i >= 0; i-- {
		x, y := w.byteTerm(a, i), w.byteTerm(b, i)
		r = tt.Or(tt.Bin(OUlt, x, y), tt.And(tt.Bin(OEq, x, y), r))
	}
	return r
}

// ---- conversions

func (w *Worker) convert(v Value, from, to *RType) Value {
	switch to.kind {
	case KInt:
		switch from.kind {
		case KInt:
			if t, ok := v.o.(*Term); ok {
				switch {
				case to.w == from.w:
					return vBV(t, to.signed)
				case to.w < from.w:
					return vBV(w.tt.Trunc(t, to.w), to.signed)
				case from.signed:
					return vBV(w.tt.Sext(t, to.w), to.signed)
				default:
					return vBV(w.tt.Zext(t, to.w), to.signed)
				}
			}
			return Value{n: norm(v.n, to)}
		case KFloat:
			f := v.f64()
			if to.signed {
				return Value{n: norm(uint64(int64(f)), to)}
			}
			return Value{n: norm(uint64(f), to)}
		case KUnsafe, KPtr:
			return v
		}
	case KFloat:
		switch from.kind {
		case KInt:
			n := v.n
			if v.o != nil {
				n = w.concretize(v, from.w)
				if from.signed {
					n = uint64(sext(n, from.w))
				}
			}
			var f float64
			if from.signed {
				f = float64(int64(n))
			} else {
				f = float64(n)
			}
			if to.w == 32 {
				f = float64(float32(f))
			}
			return vFloat(f)
		case KFloat:
			f := v.f64()
			if to.w == 32 {
				f = float64(float32(f))
			}
			return vFloat(f)
		}
	case KString:
		switch from.kind {
		case KInt:
			if v.o != nil {
				return vS(w.encodeRune(v, from))
			}
			n := int64(v.n)
			if n < 0 || n > utf8.MaxRune {
				n = utf8.RuneError
			}
			return vStr(string(rune(n)))
		case KSlice:
			s := sl(v)
			if from.elem.kind == KInt && from.elem.w == 8 {
				return vS(bytesToStr(s))
			}
			r := emptyStr
			if s != nil {
				for i := 0; i < s.len; i++ {
					x := s.obj.get(s.off + i)
					if x.o != nil {
						r = concatStr(r, w.encodeRune(x, from.elem))
					} else {
						r = concatStr(r, &Str{s: string(rune(int32(x.n)))})
					}
				}
			}
			return vS(r)
		case KString:
			return v
		}
	case KSlice:
		if from.kind == KString {
			s := str(v)
			if to.elem.w == 8 {
				return Value{o: w.strToBytes(s)}
			}
			var rs []Value
			for i := 0; i < len(s.s); {
				r, n := w.decodeRune(s, i)
				rs = append(rs, r)
				i += n
			}
			return Value{o: &Slice{obj: &Obj{vals: rs, epoch: w.epoch}, len: len(rs), cap: len(rs), esz: 1}}
		}
		return v
	case KUnsafe, KPtr:
		return v
	case KComplex:
		return v
	}
	return v
}

// encodeRune encodes a symbolic rune (ASCII bytes stay symbolic).
func (w *Worker) encodeRune(v Value, t *RType) *Str {
	x := v.o.(*Term)
	if w.decide(w.tt.Bin(OUlt, x, w.tt.Const(x.w, 0x80))) {
		b := w.tt.Trunc(x, 8)
		if b.op == OConst {
			return &Str{s: string([]byte{byte(b.k)})}
		}
		return &Str{s: "?", t: []*Term{b}}
	}
	// two byte runes stay symbolic, the rest is concretised
	if w.decide(w.tt.Bin(OUlt, x, w.tt.Const(x.w, 0x800))) {
		c := func(k uint64) *Term { return w.tt.Const(x.w, k) }
		b0 := w.tt.Trunc(w.tt.Bin(OOr, w.tt.Bin(OLshr, x, c(6)), c(0xC0)), 8)
		b1 := w.tt.Trunc(w.tt.Bin(OOr, w.tt.Bin(OAnd, x, c(0x3f)), c(0x80)), 8)
		return &Str{s: "??", t: []*Term{b0, b1}}
	}
	n := w.concretize(v, x.w)
	r := rune(sext(n, x.w))
	return &Str{s: string(r)}
}

// decodeRune is utf8.DecodeRune on a possibly symbolic string.
func (w *Worker) decodeRune(s *Str, i int) (Value, int) {
	return w.decodeRuneAt(func(k int) Value { return s.at(i + k) }, len(s.s)-i)
}

func (w *Worker) decodeRuneAt(at func(int) Value, n int) (Value, int) {
	if n <= 0 {
		return Value{n: uint64(utf8.RuneError)}, 0
	}
	tt := w.tt
	m := min(n, 4)
	conc := true
	var bs [4]byte
	var ts [4]*Term
	for k := 0; k < m; k++ {
		v := at(k)
		if t, ok := v.o.(*Term); ok {
			conc = false
			ts[k] = t
		} else {
			bs[k] = byte(v.n)
			ts[k] = tt.Const(8, v.n)
		}
		if k == 0 && conc && bs[0] < 0x80 {
			return Value{n: uint64(bs[0])}, 1
		}
	}
	if conc {
		r, sz := utf8.DecodeRune(bs[:m])
		return Value{n: uint64(r)}, sz
	}
	rng := func(t *Term, lo, hi uint64) *Term {
		return tt.And(tt.Bin(OUle, tt.Const(8, lo), t), tt.Bin(OUle, t, tt.Const(8, hi)))
	}
	z := func(t *Term) *Term { return tt.Zext(t, 32) }
	c := func(k uint64) *Term { return tt.Const(32, k) }
	low6 := func(t *Term) *Term { return tt.Bin(OAnd, z(t), c(0x3f)) }
	shl := func(t *Term, k uint64) *Term { return tt.Bin(OShl, t, c(k)) }
	or := func(a, b *Term) *Term { return tt.Bin(OOr, a, b) }
	if w.decide(tt.Bin(OUlt, ts[0], tt.Const(8, 0x80))) {
		return vBV(z(ts[0]), true), 1
	}
	if m >= 2 && w.decide(tt.And(rng(ts[0], 0xC2, 0xDF), rng(ts[1], 0x80, 0xBF))) {
		return vBV(or(shl(tt.Bin(OAnd, z(ts[0]), c(0x1f)), 6), low6(ts[1])), true), 2
	}
	if m >= 3 {
		e0 := tt.And(tt.Bin(OEq, ts[0], tt.Const(8, 0xE0)), rng(ts[1], 0xA0, 0xBF))
		ed := tt.And(tt.Bin(OEq, ts[0], tt.Const(8, 0xED)), rng(ts[1], 0x80, 0x9F))
		ee := tt.And(tt.Or(rng(ts[0], 0xE1, 0xEC), rng(ts[0], 0xEE, 0xEF)), rng(ts[1], 0x80, 0xBF))
		if w.decide(tt.And(tt.Or(e0, tt.Or(ed, ee)), rng(ts[2], 0x80, 0xBF))) {
			return vBV(or(or(shl(tt.Bin(OAnd, z(ts[0]), c(0x0f)), 12), shl(low6(ts[1]), 6)), low6(ts[2])), true), 3
		}
	}
	if m >= 4 {
		f0 := tt.And(tt.Bin(OEq, ts[0], tt.Const(8, 0xF0)), rng(ts[1], 0x90, 0xBF))
		f4 := tt.And(tt.Bin(OEq, ts[0], tt.Const(8, 0xF4)), rng(ts[1], 0x80, 0x8F))
		ff := tt.And(rng(ts[0], 0xF1, 0xF3), rng(ts[1], 0x80, 0xBF))
		if w.decide(tt.And(tt.Or(f0, tt.Or(f4, ff)), tt.And(rng(ts[2], 0x80, 0xBF), rng(ts[3], 0x80, 0xBF)))) {
			return vBV(or(or(shl(tt.Bin(OAnd, z(ts[0]), c(0x07)), 18), shl(low6(ts[1]), 12)), or(shl(low6(ts[2]), 6), low6(ts[3]))), true), 4
		}
	}
	return Value{n: uint64(utf8.RuneError)}, 1
}

// ---- indexing

func (w *Worker) concInt(v Value) uint64 {
	if v.o == nil {
		return v.n
	}
	t := v.o.(*Term)
	n := w.concretize(v, t.w)
	return uint64(sext(n, t.w))
}

// idxTerm widens an index to 64 bits
func (w *Worker) idxTerm(v Value, t *RType) *Term {
	x := v.o.(*Term)
	if t.signed {
		return w.tt.Sext(x, 64)
	}
	return w.tt.Zext(x, 64)
}

func (w *Worker) boundsCheck(v Value, t *RType, n int) *Term {
	x := w.idxTerm(v, t)
	if !w.decide(w.tt.Bin(OUlt, x, w.tt.Const(64, uint64(n)))) {
		panic(goPanic{kind: "rt", msg: fmt.Sprintf("index out of range with length %d", n)})
	}
	return x
}

func (w *Worker) index(x, i Value, xt, it *RType) Value {
	if xt.kind == KString {
		s := str(x)
		if i.o == nil {
			if i.n >= uint64(len(s.s)) {
				panic(goPanic{kind: "rt", msg: fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), len(s.s))})
			}
			return s.at(int(i.n))
		}
		idx := w.boundsCheck(i, it, len(s.s))
		vals := make([]Value, len(s.s))
		for k := range vals {
			vals[k] = s.at(k)
		}
		return w.iteChain(vals, idx, 8, false)
	}
	// array value
	n := xt.alen
	if i.o == nil {
		if i.n >= uint64(n) {
			panic(goPanic{kind: "rt", msg: fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), n)})
		}
		return aggGet(x, int(i.n)*xt.elem.slots, xt.elem)
	}
	w.boundsCheck(i, it, n)
	k := w.concInt(i)
	return aggGet(x, int(k)*xt.elem.slots, xt.elem)
}

func (w *Worker) indexAddr(x, i Value, et, it *RType, alen int) Value {
	var obj *Obj
	var off, n, esz int
	if alen < 0 {
		s := sl(x)
		if s != nil {
			obj, off, n, esz = s.obj, s.off, s.len, s.esz
		}
	} else {
		n = alen
		if x.o == nil {
			panic(goPanic{kind: "nil"})
		}
		if sp, ok := x.o.(*SymPtr); ok {
			k := w.concretize(Value{o: sp.idx}, 64)
			obj, off = sp.obj, sp.base+int(k)*sp.esz+sp.off
		} else {
			obj, off = x.o.(*Obj), int(x.n)
		}
		esz = et.slots
	}
	if i.o == nil {
		if i.n >= uint64(n) {
			panic(goPanic{kind: "rt", msg: fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), n)})
		}
		return Value{o: obj, n: uint64(off + int(i.n)*esz)}
	}
	idx := w.boundsCheck(i, it, n)
	return Value{o: &SymPtr{obj: obj, base: off, esz: esz, n: n, idx: idx}}
}

func (w *Worker) symLoad(p *SymPtr, t *RType) Value {
	if !t.isAgg() && (t.kind == KInt || t.kind == KBool) && p.n <= 4096 {
		vals := make([]Value, p.n)
		for k := range vals {
			vals[k] = p.obj.get(p.base + k*p.esz + p.off)
		}
		w8 := t.w
		if t.kind == KBool {
			w8 = 0
		}
		return w.iteChain(vals, p.idx, w8, t.signed)
	}
	k := w.concretize(Value{o: p.idx}, 64)
	return w.load(p.obj, p.base+int(k)*p.esz+p.off, t)
}

// iteChain builds vals[idx]; equal values are grouped into ranges.
func (w *Worker) iteChain(vals []Value, idx *Term, width uint8, signed bool) Value {
	tt := w.tt
	// feasible indices when idx depends on a single byte
	feas := func(k int) bool { return true }
	if idx.sv >= 0 {
		tab := tt.table(idx)
		d := w.pc.doms[idx.sv]
		ok := make(map[uint64]bool)
		for b := uint64(0); b < 256; b++ {
			if d.has(b) {
				ok[tab[b]] = true
			}
		}
		feas = func(k int) bool { return ok[uint64(k)] }
	}
	type run struct {
		lo, hi int
		t      *Term
	}
	var runs []run
	for k, v := range vals {
		if !feas(k) {
			continue
		}
		var t *Term
		if width == 0 {
			t = w.boolTerm(v)
		} else {
			t = w.term(v, width)
		}
		if n := len(runs); n > 0 && runs[n-1].t == t {
			runs[n-1].hi = k
			continue
		}
		runs = append(runs, run{k, k, t})
	}
	if len(runs) == 0 {
		return Value{}
	}
	r := runs[len(runs)-1].t
	for i := len(runs) - 2; i >= 0; i-- {
		r = tt.Ite(tt.Bin(OUle, idx, tt.Const(64, uint64(runs[i].hi))), runs[i].t, r)
	}
	return vBV(r, signed)
}

func (w *Worker) lookup(x, k Value, ins *Ins) Value {
	if ins.t.kind == KString {
		return w.index(x, k, ins.t, ins.t2)
	}
	var v Value
	ok := false
	if x.o != nil {
		m := x.o.(*Map)
		i := w.mapFind(m, k)
		w.raceMap(m, false)
		if i >= 0 {
			v = m.vals[i]
			ok = true
		}
	} else {
		hkey(ins.t.key, k) // may panic on unhashable
	}
	if !ok {
		v = zeroVal(ins.t.elem)
	}
	if ins.k == 1 {
		return Value{o: Tuple{v, vBool(ok)}}
	}
	return v
}

func (w *Worker) next(it *MapIter) Value {
	if it.isStr {
		if it.pos >= len(it.str.s) {
			return Value{o: Tuple{vBool(false), Value{}, Value{}}}
		}
		r, n := w.decodeRune(it.str, it.pos)
		p := it.pos
		w.setIter(it, p+n, nil)
		return Value{o: Tuple{vBool(true), vInt(int64(p)), r}}
	}
	m := it.m
	none := Value{o: Tuple{vBool(false), Value{}, Value{}}}
	if m == nil {
		return none
	}
	w.raceMap(m, false)
	if w.mapOrder && m.n > 1 || it.order != nil {
		// nondeterministic order: choose among the live entries not visited yet
		var cand []int
		for i := range m.keys {
			if m.live[i] {
				seen := false
				for _, o := range it.order {
					if o == i {
						seen = true
						break
					}
				}
				if !seen {
					cand = append(cand, i)
				}
			}
		}
		if len(cand) == 0 {
			return none
		}
		c := 0
		if len(cand) > 1 {
			c = w.choose(len(cand), "maporder")
		}
		i := cand[c]
		w.setIter(it, it.pos, append(it.order[:len(it.order):len(it.order)], i))
		return Value{o: Tuple{vBool(true), m.keys[i], m.vals[i]}}
	}
	if it.rev == nil && it.pos == 0 && w.mapDev > 0 && m.n > 1 && w.choose(2, "maporder") == 1 {
		// a bounded number of iterations goes the other way round
		w.mapDev--
		rev := make([]int, 0, m.n)
		for i := len(m.keys) - 1; i >= 0; i-- {
			if m.live[i] {
				rev = append(rev, i)
			}
		}
		if it.epoch != w.epoch {
			w.journal = append(w.journal, undo{f: func() { it.rev = nil }})
		}
		it.rev = rev
	}
	if it.rev != nil {
		for p := it.pos; p < len(it.rev); p++ {
			if i := it.rev[p]; i < len(m.live) && m.live[i] {
				w.setIter(it, p+1, nil)
				return Value{o: Tuple{vBool(true), m.keys[i], m.vals[i]}}
			}
		}
		return none
	}
	for i := it.pos; i < len(m.keys); i++ {
		if m.live[i] {
			w.setIter(it, i+1, nil)
			return Value{o: Tuple{vBool(true), m.keys[i], m.vals[i]}}
		}
	}
	return none
}

func (w *Worker) setIter(it *MapIter, pos int, order []int) {
	if it.epoch != w.epoch {
		op, oo := it.pos, it.order
		w.journal = append(w.journal, undo{f: func() { it.pos, it.order = op, oo }})
	}
	it.pos = pos
	it.order = order
}

func (w *Worker) slice3(fr *Frame, ins *Ins) Value {
	x := w.val(fr, ins.a)
	idx := ins.aux.([3]int32)
	const none = int32(math.MaxInt32)
	get := func(i int32, def int) int {
		if i == none {
			return def
		}
		v := w.val(fr, i)
		return int(w.concInt(v))
	}
	switch ins.t.kind {
	case KString:
		s := str(x)
		lo := get(idx[0], 0)
		hi := get(idx[1], len(s.s))
		if hi < 0 || hi > len(s.s) {
			panic(goPanic{kind: "rt", msg: fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, len(s.s))})
		}
		if lo < 0 || lo > hi {
			panic(goPanic{kind: "rt", msg: fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)})
		}
		return vS(s.sub(lo, hi))
	case KSlice:
		s := sl(x)
		c, l := 0, 0
		if s != nil {
			c, l = s.cap, s.len
		}
		lo := get(idx[0], 0)
		hi := get(idx[1], l)
		mx := get(idx[2], c)
		if mx < 0 || mx > c {
			panic(goPanic{kind: "rt", msg: fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, c)})
		}
		if hi < 0 || hi > mx {
			panic(goPanic{kind: "rt", msg: fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, c)})
		}
		if lo < 0 || lo > hi {
			panic(goPanic{kind: "rt", msg: fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)})
		}
		if s == nil {
			return Value{}
		}
		return Value{o: &Slice{obj: s.obj, off: s.off + lo*s.esz, len: hi - lo, cap: mx - lo, esz: s.esz}}
	case KPtr: // pointer to array
		if x.o == nil {
			panic(goPanic{kind: "nil"})
		}
		n := ins.t.elem.alen
		lo := get(idx[0], 0)
		hi := get(idx[1], n)
		mx := get(idx[2], n)
		if mx < 0 || mx > n || hi < 0 || hi > mx || lo < 0 || lo > hi {
			panic(goPanic{kind: "rt", msg: fmt.Sprintf("slice bounds out of range [%d:%d:%d] with length %d", lo, hi, mx, n)})
		}
		esz := ins.t.elem.elem.slots
		return Value{o: &Slice{obj: x.o.(*Obj), off: int(x.n) + lo*esz, len: hi - lo, cap: mx - lo, esz: esz}}
	}
	panic(engineErr("slice of " + ins.t.String()))
}

// ---- type assertion / methods

func (w *Worker) implements(t *RType, it *RType) bool {
	k := implKey{t, it}
	if r, ok := w.implCache[k]; ok {
		return r
	}
	r := implementsIface(t, it)
	w.implCache[k] = r
	return r
}

type implKey struct{ t, i *RType }

func (w *Worker) typeAssert(x Value, t *RType, commaOk bool) Value {
	ok := false
	var v Value
	if x.o != nil {
		i := x.o.(*Iface)
		if t.kind == KIface {
			if w.implements(i.t, t) {
				ok = true
				v = x
			}
		} else if i.t == t {
			ok = true
			v = i.v
		}
	}
	if commaOk {
		if !ok {
			v = zeroVal(t)
		}
		return Value{o: Tuple{v, vBool(ok)}}
	}
	if !ok {
		have := "nil"
		if x.o != nil {
			have = x.o.(*Iface).t.String()
		}
		panic(goPanic{kind: "plain", msg: fmt.Sprintf("interface conversion: interface is %s, not %s", have, t.String())})
	}
	return v
}

type methKey struct {
	t  *RType
	id string
}

func (w *Worker) findMethod(t *RType, ci *CallInfo) *Func {
	k := methKey{t, ci.mname}
	if f, ok := w.methCache[k]; ok {
		return f
	}
	f := w.prog.lookupMethod(t, ci.method.Pkg(), ci.method.Name())
	if f == nil {
		panic(engineErr("no method " + ci.mname + " on " + t.String()))
	}
	w.methCache[k] = f
	return f
}
