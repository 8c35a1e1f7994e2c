package main

import (
	"fmt"
	"go/types"
	"math"
)

var typString = types.Typ[types.String]

func (w *Worker) builtin(fr *Frame, ci *CallInfo) Value {
	var buf [6]Value
	args := buf[:0]
	for _, a := range ci.args {
		args = append(args, w.val(fr, a))
	}
	if ci.builtin == "recover" {
		return w.doRecover(fr)
	}
	return w.builtinVals(ci.builtin, args, ci.argT, ci.resT)
}

func (w *Worker) doRecover(fr *Frame) Value {
	if !fr.isDefer || fr.parent == nil {
		return Value{}
	}
	p := fr.parent
	if p.pan == nil || p.pan.recovered {
		return Value{}
	}
	v := p.pan.val
	if p.shared {
		// make the parent private: relink
		n := *p
		n.regs = append([]Value(nil), p.regs...)
		n.defers = append([]deferRec(nil), p.defers...)
		n.shared = false
		pp := *p.pan
		n.pan = &pp
		if n.parent != nil {
			n.parent.shared = true
		}
		fr.parent = &n
		p = &n
	}
	w.recovered = append(w.recovered, p.pan.desc+" at "+p.pan.where)
	p.pan.recovered = true
	return v
}

func (w *Worker) builtinVals(name string, args []Value, argT []*RType, resT *RType) Value {
	switch name {
	case "len":
		return w.length(args[0], argT[0])
	case "cap":
		switch o := args[0].o.(type) {
		case nil:
			return Value{}
		case *Slice:
			return vInt(int64(o.cap))
		case *Chan:
			return vInt(int64(o.cap))
		}
		return vInt(int64(argT[0].alenOf()))
	case "append":
		return w.appendSlice(args[0], args[1], argT[0], argT[1])
	case "copy":
		return w.copySlice(args[0], args[1], argT[1])
	case "delete":
		if args[0].o != nil {
			w.mapDelete(args[0].o.(*Map), args[1])
		}
		return Value{}
	case "clear":
		switch o := args[0].o.(type) {
		case *Map:
			w.mapClear(o)
		case *Slice:
			for i := 0; i < o.len*o.esz; i++ {
				w.set(o.obj, o.off+i, Value{})
			}
		}
		return Value{}
	case "close":
		if args[0].o == nil {
			panic(goPanic{kind: "plain", msg: "close of nil channel"})
		}
		ch := args[0].o.(*Chan)
		if ch.closed {
			panic(goPanic{kind: "plain", msg: "close of closed channel"})
		}
		w.journal = append(w.journal, undo{f: func() { ch.closed = false; ch.chb = nil }})
		ch.closed = true
		if w.raceOn {
			ch.chb = w.cur.vc.clone()
			w.tick()
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		for _, x := range args[1:] {
			less := w.lessVal(x, r, resT)
			if name == "max" {
				less = w.lessVal(r, x, resT)
			}
			if less {
				r = x
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].o == nil {
			panic(goPanic{kind: "nil"})
		}
		return args[0]
	case "SliceData":
		s := sl(args[0])
		if s == nil {
			return Value{}
		}
		return Value{o: s.obj, n: uint64(s.off)}
	case "StringData":
		s := str(args[0])
		if len(s.s) == 0 {
			return Value{}
		}
		b := w.strToBytes(s)
		return Value{o: b.obj}
	case "String":
		n := int(w.concInt(args[1]))
		if n == 0 {
			return vS(emptyStr)
		}
		o := args[0].o.(*Obj)
		return vS(objStr(o, int(args[0].n), n))
	case "Slice":
		n := int(w.concInt(args[1]))
		if args[0].o == nil {
			return Value{}
		}
		esz := 1
		if argT[0] != nil && argT[0].elem != nil {
			esz = argT[0].elem.slots
		}
		return Value{o: &Slice{obj: args[0].o.(*Obj), off: int(args[0].n), len: n, cap: n, esz: esz}}
	case "real", "imag", "complex":
		return Value{}
	}
	panic(pathEnd{"unsupported", "builtin " + name})
}

func (r *RType) alenOf() int {
	if r.kind == KPtr && r.elem.kind == KArray {
		return r.elem.alen
	}
	return r.alen
}

func (w *Worker) lessVal(a, b Value, t *RType) bool {
	switch t.kind {
	case KInt:
		if a.o == nil && b.o == nil {
			if t.signed {
				return int64(a.n) < int64(b.n)
			}
			return a.n < b.n
		}
		op := OUlt
		if t.signed {
			op = OSlt
		}
		return w.decide(w.tt.Bin(op, w.term(a, t.w), w.term(b, t.w)))
	case KFloat:
		return a.f64() < b.f64() || math.IsNaN(a.f64())
	case KString:
		return w.decide(w.strLess(str(a), str(b), false))
	}
	panic(engineErr("min/max"))
}

func (w *Worker) length(v Value, t *RType) Value {
	switch o := v.o.(type) {
	case nil:
		if t != nil && t.kind == KPtr && t.elem.kind == KArray {
			return vInt(int64(t.elem.alen))
		}
		return Value{}
	case *Str:
		return vInt(int64(len(o.s)))
	case *Slice:
		return vInt(int64(o.len))
	case *Map:
		w.raceMap(o, false)
		return vInt(int64(o.n))
	case *Chan:
		return vInt(int64(len(o.buf)))
	}
	return vInt(int64(t.alenOf()))
}

func (w *Worker) mapClear(m *Map) {
	w.raceMap(m, true)
	k, v, l, ix, n, ns := m.keys, m.vals, m.live, m.idx, m.n, m.nsym
	w.journal = append(w.journal, undo{f: func() { m.keys, m.vals, m.live, m.idx, m.n, m.nsym = k, v, l, ix, n, ns }})
	m.keys, m.vals, m.live, m.idx, m.n, m.nsym = nil, nil, nil, map[any]int{}, 0, 0
}

func (w *Worker) appendSlice(a, b Value, ta, tb *RType) Value {
	dst := sl(a)
	var n, esz int
	var elem *RType
	if ta.kind == KSlice {
		elem = ta.elem
	}
	esz = elem.slots
	var bs *Str
	var bsl *Slice
	if tb.kind == KString {
		bs = str(b)
		n = len(bs.s)
	} else {
		bsl = sl(b)
		if bsl != nil {
			n = bsl.len
		}
	}
	if n == 0 {
		return a
	}
	l, c := 0, 0
	if dst != nil {
		l, c = dst.len, dst.cap
	}
	if w.raceOn {
		if bsl != nil {
			w.raceAccess(bsl.obj, bsl.off, bsl.len*bsl.esz, false)
		}
	}
	var out *Slice
	if l+n <= c {
		out = &Slice{obj: dst.obj, off: dst.off, len: l + n, cap: c, esz: esz}
	} else {
		nc := growCap(c, l+n)
		if int64(nc)*int64(max(1, esz)) > w.maxAlloc {
			panic(pathEnd{"budget", "allocation bound exceeded at " + w.where()})
		}
		no := w.newElemObj(elem, nc)
		if l > 0 {
			if w.raceOn {
				w.raceAccess(dst.obj, dst.off, l*esz, false)
			}
			copyObj(no, 0, dst.obj, dst.off, l*esz)
		}
		out = &Slice{obj: no, len: l + n, cap: nc, esz: esz}
	}
	base := out.off + l*esz
	if w.raceOn && out.obj.epoch != w.epoch {
		w.raceAccess(out.obj, base, n*esz, true)
	}
	if bs != nil {
		for i := 0; i < n; i++ {
			w.set(out.obj, base+i, bs.at(i))
		}
		return Value{o: out}
	}
	if out.obj.epoch == w.epoch && out.obj != bsl.obj {
		copyObj(out.obj, base, bsl.obj, bsl.off, n*esz)
		return Value{o: out}
	}
	tmp := make([]Value, n*esz)
	for i := range tmp {
		tmp[i] = bsl.obj.get(bsl.off + i)
	}
	for i := range tmp {
		w.set(out.obj, base+i, tmp[i])
	}
	return Value{o: out}
}

// copyObj copies raw slots into a fresh object (no journaling).
func copyObj(dst *Obj, do int, src *Obj, so, n int) {
	if dst.bytes == nil && src.bytes == nil {
		copy(dst.vals[do:do+n], src.vals[so:so+n])
		return
	}
	if dst.bytes != nil && src.bytes != nil && src.bsym == nil {
		copy(dst.bytes[do:do+n], src.bytes[so:so+n])
		if dst.bsym != nil {
			for i := 0; i < n; i++ {
				dst.bsym[do+i] = nil
			}
		}
		return
	}
	for i := 0; i < n; i++ {
		dst.raw(do+i, src.get(so+i))
	}
}

// growCap mirrors the shape of runtime.growslice (without size classes).
func growCap(old, need int) int {
	d := old + old
	if need > d {
		if need < 8 {
			return (need + 1) &^ 1
		}
		return need
	}
	if old < 256 {
		return d
	}
	n := old
	for n < need {
		n += (n + 3*256) / 4
	}
	return n
}

func (w *Worker) copySlice(a, b Value, tb *RType) Value {
	d := sl(a)
	if d == nil {
		return Value{}
	}
	if tb.kind == KString {
		s := str(b)
		n := min(d.len, len(s.s))
		for i := 0; i < n; i++ {
			w.set(d.obj, d.off+i, s.at(i))
		}
		return vInt(int64(n))
	}
	s := sl(b)
	if s == nil {
		return Value{}
	}
	n := min(d.len, s.len)
	if w.raceOn {
		w.raceAccess(s.obj, s.off, n*s.esz, false)
		w.raceAccess(d.obj, d.off, n*d.esz, true)
	}
	if d.obj.epoch == w.epoch && d.obj != s.obj {
		copyObj(d.obj, d.off, s.obj, s.off, n*d.esz)
		return vInt(int64(n))
	}
	tmp := make([]Value, n*d.esz)
	for i := range tmp {
		tmp[i] = s.obj.get(s.off + i)
	}
	for i := range tmp {
		w.set(d.obj, d.off+i, tmp[i])
	}
	return vInt(int64(n))
}

// ---- goroutines and channels

func (w *Worker) spawn(fr *Frame, ci *CallInfo) {
	d := w.mkDefer(fr, ci)
	g := &G{id: len(w.gs), name: "go"}
	w.gs = append(w.gs[:len(w.gs):len(w.gs)], g)
	if w.raceOn {
		g.vc = w.cur.vc.clone()
		g.vc = g.vc.set(g.id, 1)
		w.tick()
	}
	fn := d.fn
	var binds []Value
	if fn == nil {
		if d.cl == nil {
			panic(goPanic{kind: "plain", msg: "go of nil func value"})
		}
		fn, binds = d.cl.fn, d.cl.binds
	}
	if fn.model != nil {
		fn = fn.model
	}
	if fn.in != nil || fn.stub {
		panic(pathEnd{"unsupported", "go intrinsic " + fn.name})
	}
	g.name = shortName(fn.name)
	w.push(g, fn, d.args, binds, -1, nil)
}

func (w *Worker) exitG(g *G) {
	if g == w.gs[0] {
		w.endPath(pathEnd{"done", ""})
		return
	}
}

func (w *Worker) block(g *G, cond func(w *Worker) bool, recvOn ...*Chan) {
	g.blocked = true
	g.wait = cond
	g.recvOn = recvOn
}

// schedule picks the next goroutine able to run.
func (w *Worker) schedule() {
	n := len(w.gs)
	start := w.cur.id
	if w.schedChoice {
		var cand []int
		for k := 0; k < n; k++ {
			g := w.gs[(start+1+k)%n]
			if g.top == nil {
				continue
			}
			if g.blocked && (g.wait == nil || !g.wait(w)) {
				continue
			}
			cand = append(cand, g.id)
		}
		if len(cand) > 0 {
			c := 0
			if len(cand) > 1 {
				c = w.choose(len(cand), "sched")
			}
			g := w.gs[cand[c]]
			g.blocked, g.wait, g.recvOn = false, nil, nil
			w.cur = g
			return
		}
	} else {
		for k := 0; k < n; k++ {
			g := w.gs[(start+1+k)%n]
			if g.top == nil {
				continue
			}
			if g.blocked {
				if g.wait == nil || !g.wait(w) {
					continue
				}
				g.blocked, g.wait, g.recvOn = false, nil, nil
			}
			w.cur = g
			return
		}
	}
	panic(pathEnd{"deadlock", "all goroutines are asleep: " + w.blockedList()})
}

func (w *Worker) blockedList() string {
	s := ""
	for _, g := range w.gs {
		if g.top != nil {
			c := w.cur
			w.cur = g
			s += fmt.Sprintf("[%d %s: %s] ", g.id, g.name, w.where())
			w.cur = c
		}
	}
	return s
}

func (w *Worker) canRecv(ch *Chan) bool { return len(ch.buf) > 0 || ch.closed }

func (w *Worker) canSend(g *G, ch *Chan) bool {
	if ch.closed || len(ch.buf) < ch.cap {
		return true
	}
	if ch.cap == 0 && len(ch.buf) == 0 {
		for _, o := range w.gs {
			if o != g && o.top != nil && o.blocked {
				for _, c := range o.recvOn {
					if c == ch {
						return true
					}
				}
			}
		}
	}
	return false
}

func (w *Worker) chanJournal(ch *Chan) {
	b, h := ch.buf, ch.hb
	w.journal = append(w.journal, undo{f: func() { ch.buf, ch.hb = b, h }})
}

func (w *Worker) chanPut(ch *Chan, v Value) {
	if ch.closed {
		panic(goPanic{kind: "plain", msg: "send on closed channel"})
	}
	w.chanJournal(ch)
	ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], v)
	if w.raceOn {
		ch.hb = append(ch.hb[:len(ch.hb):len(ch.hb)], w.cur.vc.clone())
		w.tick()
	}
}

func (w *Worker) chanGet(ch *Chan, t *RType) (Value, bool) {
	if len(ch.buf) > 0 {
		w.chanJournal(ch)
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if w.raceOn && len(ch.hb) > 0 {
			w.cur.vc = w.cur.vc.join(ch.hb[0])
			ch.hb = ch.hb[1:]
		}
		return v, true
	}
	if w.raceOn && ch.chb != nil {
		w.cur.vc = w.cur.vc.join(ch.chb)
	}
	return Value{}, false
}

func (w *Worker) send(g *G, c, v Value) bool {
	if c.o == nil {
		w.block(g, nil)
		return false
	}
	ch := c.o.(*Chan)
	if w.canSend(g, ch) {
		w.chanPut(ch, v)
		return true
	}
	w.block(g, func(w *Worker) bool { return w.canSend(g, ch) })
	return false
}

func (w *Worker) recv(g *G, c Value) (Value, bool, bool) {
	if c.o == nil {
		w.block(g, nil)
		return Value{}, false, false
	}
	ch := c.o.(*Chan)
	if w.canRecv(ch) {
		v, ok := w.chanGet(ch, nil)
		return v, ok, true
	}
	w.block(g, func(w *Worker) bool { return w.canRecv(ch) }, ch)
	return Value{}, false, false
}

func (w *Worker) selectOp(g *G, fr *Frame, si *SelInfo) (Value, bool) {
	var ready []int
	var chans []*Chan
	for i, s := range si.states {
		c := w.val(fr, s.ch)
		if c.o == nil {
			chans = append(chans, nil)
			continue
		}
		ch := c.o.(*Chan)
		chans = append(chans, ch)
		if s.send && w.canSend(g, ch) || !s.send && w.canRecv(ch) {
			ready = append(ready, i)
		}
	}
	res := func(idx int, recvOk bool, rv map[int]Value) Value {
		t := Tuple{vInt(int64(idx)), vBool(recvOk)}
		for i, s := range si.states {
			if !s.send {
				v, ok := rv[i]
				if !ok {
					v = zeroVal(s.t)
				}
				t = append(t, v)
			}
		}
		return Value{o: t}
	}
	if len(ready) == 0 {
		if !si.blocking {
			return res(-1, false, nil), true
		}
		states := si.states
		var rc []*Chan
		for i, s := range states {
			if !s.send && chans[i] != nil {
				rc = append(rc, chans[i])
			}
		}
		w.block(g, func(w *Worker) bool {
			for i, s := range states {
				if chans[i] == nil {
					continue
				}
				if s.send && w.canSend(g, chans[i]) || !s.send && w.canRecv(chans[i]) {
					return true
				}
			}
			return false
		}, rc...)
		return Value{}, false
	}
	k := 0
	if len(ready) > 1 && w.schedChoice {
		k = w.choose(len(ready), "select")
		fr = w.own(g)
	}
	i := ready[k]
	s := si.states[i]
	if s.send {
		w.chanPut(chans[i], w.val(fr, s.val))
		return res(i, false, nil), true
	}
	v, ok := w.chanGet(chans[i], s.t)
	if !ok {
		v = zeroVal(s.t)
	}
	return res(i, ok, map[int]Value{i: v}), true
}

// ---- happens-before race detection

type vclock []int32

func (v vclock) clone() vclock { return append(vclock(nil), v...) }
func (v vclock) get(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v vclock) set(i int, x int32) vclock {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i] = x
	return v
}
func (v vclock) join(o vclock) vclock {
	r := v.clone()
	for i, x := range o {
		if x > r.get(i) {
			r = r.set(i, x)
		}
	}
	return r
}

func (w *Worker) tick() {
	g := w.cur
	g.vc = g.vc.clone().set(g.id, g.vc.get(g.id)+1)
}

type raceCell struct {
	wg   int32 // last writer
	wc   int32 // its clock
	wpos codePos
	r    []int32 // per goroutine clock of last read
	rpos codePos
}

type raceShadow struct {
	cells map[int]*raceCell
}

func (w *Worker) raceCheck(sh **raceShadow, slot int, write bool, what string) {
	if *sh == nil {
		*sh = &raceShadow{cells: map[int]*raceCell{}}
	}
	c := (*sh).cells[slot]
	if c == nil {
		c = &raceCell{wg: -1}
		(*sh).cells[slot] = c
	}
	g := w.cur
	if c.wg >= 0 && int(c.wg) != g.id && c.wc > g.vc.get(int(c.wg)) {
		w.raceFound(what, c.wpos, write)
	}
	if write {
		for i, k := range c.r {
			if i != g.id && k > g.vc.get(i) {
				w.raceFound(what, c.rpos, write)
			}
		}
	}
	old := *c
	old.r = append([]int32(nil), c.r...)
	w.journal = append(w.journal, undo{f: func() { *c = old }})
	if write {
		c.wg, c.wc = int32(g.id), g.vc.get(g.id)
		c.wpos = w.codePos()
		c.r = nil
	} else {
		for len(c.r) <= g.id {
			c.r = append(c.r, 0)
		}
		c.r[g.id] = g.vc.get(g.id)
		c.rpos = w.codePos()
	}
}

type codePos struct {
	fn *Func
	pc int32
}

func (w *Worker) codePos() codePos {
	fr := w.cur.top
	return codePos{fr.fn, fr.pc}
}

func (w *Worker) posString(c codePos) string {
	if c.fn == nil {
		return "?"
	}
	pos := c.fn.code[c.pc].pos
	for k := c.pc; k >= 0 && !pos.IsValid(); k-- {
		pos = c.fn.code[k].pos
	}
	p := w.prog.prog.Fset.Position(pos)
	return fmt.Sprintf("%s(%s:%d)", shortName(c.fn.name), base(p.Filename), p.Line)
}

func (w *Worker) raceFound(what string, other codePos, write bool) {
	kind := "read"
	if write {
		kind = "write"
	}
	w.raceOn = false
	panic(pathEnd{"violation", fmt.Sprintf("data race: %s of %s at %s, conflicting with access at %s", kind, what, w.where(), w.posString(other))})
}

func (w *Worker) raceAccess(o *Obj, off, n int, write bool) {
	if len(w.gs) < 2 && !w.raceInit {
		return
	}
	if n > 4 {
		n = 4
	}
	for i := 0; i < n; i++ {
		w.raceCheck(&o.race, off+i, write, "memory")
	}
}

func (w *Worker) raceMap(m *Map, write bool) {
	if !w.raceOn || len(w.gs) < 2 {
		return
	}
	w.raceCheck(&m.race, 0, write, "map")
}
