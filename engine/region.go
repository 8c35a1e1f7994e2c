package main

import (
	"go/token"
)

// Region merging: at a branch on a condition over one symbolic byte the side-effect free
// instructions following both outcomes are evaluated ahead; states that reach the same
// program point with the same live registers are merged into one (disjunctive) alternative.

type ovEnt struct {
	r int32
	v Value
}

type rstate struct {
	pc    int32
	epoch int
	ov    []ovEnt
	cond  *Term
	set   Set256
	sv    int32
	steps int
}

func (s *rstate) get(w *Worker, fr *Frame, i int32) Value {
	if i >= 0 {
		for k := len(s.ov) - 1; k >= 0; k-- {
			if s.ov[k].r == i {
				return s.ov[k].v
			}
		}
	}
	return w.val(fr, i)
}

func (s *rstate) put(r int32, v Value) {
	for k := range s.ov {
		if s.ov[k].r == r {
			s.ov[k].v = v
			return
		}
	}
	s.ov = append(s.ov, ovEnt{r, v})
}

func (s *rstate) clone() *rstate {
	n := *s
	n.ov = append([]ovEnt(nil), s.ov...)
	return &n
}

func (s *rstate) edge(w *Worker, fr *Frame, e *Edge) {
	var tmp [16]Value
	t := tmp[:0]
	for _, m := range e.moves {
		t = append(t, s.get(w, fr, m.src))
	}
	for i, m := range e.moves {
		s.put(m.dst, t[i])
	}
	if e.pc <= s.pc {
		s.epoch++
	}
	s.pc = e.pc
}

// ---- liveness

type liveInfo struct {
	words int
	in    []uint64 // per pc
}

func (l *liveInfo) has(pc, r int32) bool {
	return l.in[int(pc)*l.words+int(r>>6)]&(1<<(uint(r)&63)) != 0
}

func (w *Worker) liveness(f *Func) *liveInfo {
	if l, ok := w.live[f]; ok {
		return l
	}
	n := len(f.code)
	l := &liveInfo{words: (f.nregs + 63) / 64}
	l.in = make([]uint64, n*l.words)
	row := func(pc int32) []uint64 { return l.in[int(pc)*l.words : int(pc+1)*l.words] }
	tmp := make([]uint64, l.words)
	set := func(b []uint64, r int32) {
		if r >= 0 && int(r) < f.nregs {
			b[r>>6] |= 1 << (uint(r) & 63)
		}
	}
	clr := func(b []uint64, r int32) {
		if r >= 0 && int(r) < f.nregs {
			b[r>>6] &^= 1 << (uint(r) & 63)
		}
	}
	addEdge := func(e *Edge) {
		e2 := append([]uint64(nil), row(e.pc)...)
		for _, m := range e.moves {
			clr(e2, m.dst)
		}
		for _, m := range e.moves {
			set(e2, m.src)
		}
		for i := range e2 {
			tmp[i] |= e2[i]
		}
	}
	for changed := true; changed; {
		changed = false
		for pc := int32(n - 1); pc >= 0; pc-- {
			ins := &f.code[pc]
			for i := range tmp {
				tmp[i] = 0
			}
			switch ins.op {
			case IIf:
				info := ins.aux.(*IfInfo)
				addEdge(&info.t)
				addEdge(&info.f)
			case IJump:
				addEdge(ins.aux.(*Edge))
			case IReturn, IPanic:
			default:
				if int(pc)+1 < n {
					copy(tmp, row(pc+1))
				}
			}
			clr(tmp, ins.dst)
			set(tmp, ins.a)
			set(tmp, ins.b)
			set(tmp, ins.c)
			switch x := ins.aux.(type) {
			case *CallInfo:
				for _, a := range x.args {
					set(tmp, a)
				}
				if x.invoke {
					set(tmp, x.recv)
				}
				if x.dyn {
					set(tmp, x.fv)
				}
			case []int32:
				for _, a := range x {
					set(tmp, a)
				}
			case [3]int32:
				for _, a := range x {
					set(tmp, a)
				}
			case *SelInfo:
				for _, s := range x.states {
					set(tmp, s.ch)
					set(tmp, s.val)
				}
			}
			if f.recoverPC >= 0 {
				for i, x := range row(f.recoverPC) {
					tmp[i] |= x
				}
			}
			r := row(pc)
			for i := range r {
				if r[i] != tmp[i] {
					changed = true
					r[i] = tmp[i]
				}
			}
		}
	}
	w.live[f] = l
	return l
}

func sameVal(a, b Value) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.o.(type) {
	case nil:
		return b.o == nil
	case Tuple:
		return false
	case *Str:
		y, ok := b.o.(*Str)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return x.t == nil && y.t == nil && x.s == y.s
	case *Iface:
		y, ok := b.o.(*Iface)
		return ok && (x == y || x.t == y.t && sameVal(x.v, y.v))
	case *Agg:
		y, ok := b.o.(*Agg)
		if !ok || len(x.v) != len(y.v) {
			return false
		}
		for i := range x.v {
			if !sameVal(x.v[i], y.v[i]) {
				return false
			}
		}
		return true
	default:
		switch b.o.(type) {
		case Tuple:
			return false
		}
		return a.o == b.o
	}
}

func sameLive(l *liveInfo, fr *Frame, a, b *rstate) bool {
	chk := func(x, y *rstate) bool {
		for _, e := range x.ov {
			if !l.has(x.pc, e.r) {
				continue
			}
			found := false
			for k := len(y.ov) - 1; k >= 0; k-- {
				if y.ov[k].r == e.r {
					found = true
					if !sameVal(e.v, y.ov[k].v) {
						return false
					}
					break
				}
			}
			if !found && !sameVal(e.v, fr.regs[e.r]) {
				return false
			}
		}
		return true
	}
	return chk(a, b) && chk(b, a)
}

const regionSteps = 6000
const regionTerms = 24

// region handles a branch on t (a condition over a single, unlinked byte). Returns false when not eligible.
func (w *Worker) region(g *G, fr *Frame, info *IfInfo, t *Term) bool {
	if t.sv < 0 || t.set == nil || w.pc.linked[t.sv] || w.raceOn {
		return false
	}
	if w.replaying() {
		w.insPos = len(w.insDecs)
	}
	w.stats.Regions++
	sv := t.sv
	dom := w.pc.doms[sv]
	live := w.liveness(fr.fn)
	var pool []*rstate
	var terms []*rstate
	add := func(cond *Term, set Set256, base *rstate, e *Edge) {
		n := base.clone()
		n.cond, n.set = cond, set
		n.edge(w, fr, e)
		for _, p := range pool {
			if p.pc == n.pc && p.epoch == n.epoch && sameLive(live, fr, p, n) {
				p.cond = w.tt.Or(p.cond, n.cond)
				p.set = unionSet(p.set, n.set)
				return
			}
		}
		pool = append(pool, n)
	}
	terminal := func(s *rstate) {
		for _, p := range terms {
			if p.pc == s.pc && sameLive(live, fr, p, s) {
				p.cond = w.tt.Or(p.cond, s.cond)
				p.set = unionSet(p.set, s.set)
				return
			}
		}
		terms = append(terms, s)
	}
	split := func(s *rstate, c *Term, inf *IfInfo) {
		yes := s.set.and(c.set)
		no := s.set.andNot(c.set)
		if no.empty() {
			w.confirmUnsat(w.tt.Not(c), &s.set, s.cond)
			add(s.cond, yes, s, &inf.t)
			return
		}
		if yes.empty() {
			w.confirmUnsat(c, &s.set, s.cond)
			add(s.cond, no, s, &inf.f)
			return
		}
		add(w.tt.And(s.cond, c), yes, s, &inf.t)
		add(w.tt.And(s.cond, w.tt.Not(c)), no, s, &inf.f)
	}
	base := &rstate{pc: fr.pc, cond: w.tt.T, set: dom, sv: sv}
	split(base, t, info)
	total := 0
	for len(pool) > 0 {
		// earliest state first
		bi := 0
		for i, p := range pool {
			q := pool[bi]
			if p.epoch < q.epoch || p.epoch == q.epoch && p.pc < q.pc {
				bi = i
			}
		}
		s := pool[bi]
		pool = append(pool[:bi], pool[bi+1:]...)
		if total > regionSteps || len(terms) > regionTerms {
			terminal(s)
			continue
		}
		for {
			ins := &fr.fn.code[s.pc]
			total++
			s.steps++
			if ins.op == IIf {
				c := s.get(w, fr, ins.a)
				inf := ins.aux.(*IfInfo)
				if ct, ok := c.o.(*Term); ok {
					if ct.sv != sv || ct.set == nil || total > regionSteps {
						terminal(s)
					} else {
						split(s, ct, inf)
					}
					break
				}
				if total > regionSteps {
					terminal(s)
					break
				}
				e := &inf.f
				if c.n != 0 {
					e = &inf.t
				}
				add(s.cond, s.set, s, e)
				break
			}
			if ins.op == IJump {
				if total > regionSteps {
					terminal(s)
					break
				}
				add(s.cond, s.set, s, ins.aux.(*Edge))
				break
			}
			v, ok := w.pureIns(fr, s, ins)
			if !ok {
				terminal(s)
				break
			}
			if ins.op != INop {
				s.put(ins.dst, v)
			}
			s.pc++
		}
	}
	w.stats.RegionStates += int64(len(terms))
	k := int32(0)
	if len(terms) > 1 {
		alts := make([]alt, len(terms))
		for i, s := range terms {
			alts[i] = alt{cond: s.cond, m: map[int32]uint64{sv: s.set.first()}, idx: int32(i)}
		}
		k = w.fork(alts)
		fr = w.own(g)
	}
	s := terms[k]
	for _, e := range s.ov {
		fr.regs[e.r] = e.v
	}
	fr.pc = s.pc
	w.steps += int64(s.steps)
	return true
}

func unionSet(a, b Set256) Set256 {
	return Set256{a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]}
}

// pureIns evaluates one side-effect free instruction; false when it is not one.
func (w *Worker) pureIns(fr *Frame, s *rstate, ins *Ins) (Value, bool) {
	switch ins.op {
	case INop:
		return Value{}, true
	case IBinInt:
		a, b := s.get(w, fr, ins.a), s.get(w, fr, ins.b)
		op := token.Token(ins.k)
		if a.o == nil && b.o == nil {
			if (op == token.QUO || op == token.REM) && b.n == 0 {
				return Value{}, false
			}
			if (op == token.SHL || op == token.SHR) && int64(b.n) < 0 {
				return Value{}, false
			}
			return binInt(op, a.n, b.n, ins.t, ins.t2), true
		}
		if op == token.SHL || op == token.SHR {
			if b.o != nil || int64(b.n) < 0 {
				return Value{}, false
			}
			return w.binIntSym(op, a, b, ins.t, ins.t2), true
		}
		if op == token.QUO || op == token.REM {
			if b.o != nil || b.n == 0 {
				return Value{}, false
			}
			return w.binIntSym(op, a, b, ins.t, ins.t2), true
		}
		r, ok := w.symBin(op, w.term(a, ins.t.w), w.term(b, ins.t.w), ins.t.signed)
		if !ok {
			return Value{}, false
		}
		return vBV(r, ins.t.signed), true
	case IFieldAddr:
		p := s.get(w, fr, ins.a)
		if o, ok := p.o.(*Obj); ok {
			return Value{o: o, n: p.n + uint64(ins.k)}, true
		}
		return Value{}, false
	case ILoad:
		p := s.get(w, fr, ins.a)
		switch o := p.o.(type) {
		case *Obj:
			return w.load(o, int(p.n), ins.t), true
		case *SymPtr:
			if !ins.t.isAgg() && (ins.t.kind == KInt || ins.t.kind == KBool) && o.n <= 4096 {
				return w.symLoad(o, ins.t), true
			}
		}
		return Value{}, false
	case IField:
		return aggGet(s.get(w, fr, ins.a), ins.k, ins.t), true
	case IExtract:
		t, ok := s.get(w, fr, ins.a).o.(Tuple)
		if !ok {
			return Value{}, false
		}
		return t[ins.k], true
	case IChangeType:
		return s.get(w, fr, ins.a), true
	case IConvert:
		if ins.t.kind == KInt && ins.t2.kind == KInt {
			return w.convert(s.get(w, fr, ins.a), ins.t, ins.t2), true
		}
		return Value{}, false
	case INot:
		x := s.get(w, fr, ins.a)
		if t, ok := x.o.(*Term); ok {
			return vBV(w.tt.Not(t), false), true
		}
		return Value{n: 1 - x.n}, true
	case IBinBool:
		a, b := w.boolTerm(s.get(w, fr, ins.a)), w.boolTerm(s.get(w, fr, ins.b))
		if token.Token(ins.k) == token.AND {
			return vBV(w.tt.And(a, b), false), true
		}
		return vBV(w.tt.Or(a, b), false), true
	case IEq:
		if ins.k2 != 0 {
			return Value{}, false
		}
		switch ins.t.kind {
		case KBool, KPtr, KString, KChan, KMap:
			t := w.eq(ins.t, s.get(w, fr, ins.a), s.get(w, fr, ins.b))
			if ins.k == 1 {
				t = w.tt.Not(t)
			}
			return vBV(t, false), true
		case KIface, KSlice, KFunc:
			a, b := s.get(w, fr, ins.a), s.get(w, fr, ins.b)
			if a.o == nil || b.o == nil {
				r := a.o == nil && b.o == nil
				return vBool(r != (ins.k == 1)), true
			}
		}
		return Value{}, false
	case IIndexAddr:
		x, i := s.get(w, fr, ins.a), s.get(w, fr, ins.b)
		if ins.k < 0 {
			sl := sl(x)
			if sl == nil {
				return Value{}, false
			}
			if i.o == nil {
				if i.n >= uint64(sl.len) {
					return Value{}, false
				}
				return Value{o: sl.obj, n: uint64(sl.off + int(i.n)*sl.esz)}, true
			}
			idx := w.idxTerm(i, ins.t2)
			if w.quickIn(s, w.tt.Bin(OUlt, idx, w.tt.Const(64, uint64(sl.len)))) {
				return Value{o: &SymPtr{obj: sl.obj, base: sl.off, esz: sl.esz, n: sl.len, idx: idx}}, true
			}
			return Value{}, false
		}
		o, ok := x.o.(*Obj)
		if !ok {
			return Value{}, false
		}
		if i.o == nil {
			if i.n >= uint64(ins.k) {
				return Value{}, false
			}
			return Value{o: o, n: x.n + i.n*uint64(ins.t.slots)}, true
		}
		idx := w.idxTerm(i, ins.t2)
		if w.quickIn(s, w.tt.Bin(OUlt, idx, w.tt.Const(64, uint64(ins.k)))) {
			return Value{o: &SymPtr{obj: o, base: int(x.n), esz: ins.t.slots, n: ins.k, idx: idx}}, true
		}
		return Value{}, false
	case IIndex:
		if ins.t.kind != KString {
			return Value{}, false
		}
		x, i := str(s.get(w, fr, ins.a)), s.get(w, fr, ins.b)
		if i.o == nil && i.n < uint64(len(x.s)) {
			return x.at(int(i.n)), true
		}
		return Value{}, false
	case ICall:
		ci := ins.aux.(*CallInfo)
		if ci.builtin == "len" {
			return w.length(s.get(w, fr, ci.args[0]), ci.argT[0]), true
		}
		return Value{}, false
	}
	return Value{}, false
}

// quickIn: does the condition hold on every byte of the state's set?
func (w *Worker) quickIn(s *rstate, t *Term) bool {
	if t.op == OConst {
		return t.k != 0
	}
	if t.sv != s.sv || t.set == nil {
		return false
	}
	x := s.set.andNot(t.set)
	return x.empty()
}
