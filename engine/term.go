package main

// Hash-consed bit-vector / boolean terms. One TermTable per worker.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // low bits only: extract [w-1:0]
	OIte
	// booleans (w == 0)
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OBAnd: "and", OBOr: "or", OBNot: "not"}

type Set256 [4]uint64

func (s *Set256) has(i uint64) bool { return s[i>>6]&(1<<(i&63)) != 0 }
func (s *Set256) add(i uint64)      { s[i>>6] |= 1 << (i & 63) }
func (s *Set256) empty() bool       { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s *Set256) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s *Set256) and(o *Set256) Set256 {
	return Set256{s[0] & o[0], s[1] & o[1], s[2] & o[2], s[3] & o[3]}
}
func (s *Set256) andNot(o *Set256) Set256 {
	return Set256{s[0] &^ o[0], s[1] &^ o[1], s[2] &^ o[2], s[3] &^ o[3]}
}
func (s *Set256) first() uint64 {
	// prefer printable members so that counterexamples are readable
	for _, pref := range "abcxyzABC0123" {
		if s.has(uint64(pref)) {
			return uint64(pref)
		}
	}
	for c := uint64(33); c < 127; c++ {
		if s.has(c) {
			return c
		}
	}
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}

var fullSet = Set256{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

type Term struct {
	op      Op
	w       uint8 // width, 0 for bool
	id      uint32
	k       uint64 // const value or var id
	a, b, c *Term
	vars    []int32 // sorted var ids
	sv      int32   // the single variable if exactly one and it is 8 bits wide, else -1
	tab     *[256]uint64
	set     *Set256 // bool terms over a single byte
	neg     *Term
	lemma   bool
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c uint32
}

type VarInfo struct {
	w    uint8
	name string
}

type TermTable struct {
	m    map[termKey]*Term
	next uint32
	vars []VarInfo
	vt   []*Term
	T, F *Term
	norm bool // print every variable as x
}

func newTermTable() *TermTable {
	tt := &TermTable{m: map[termKey]*Term{}, next: 1}
	tt.T = tt.mk(OConst, 0, 1, nil, nil, nil)
	tt.F = tt.mk(OConst, 0, 0, nil, nil, nil)
	return tt
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func (tt *TermTable) mk(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	key := termKey{op, w, k, tid(a), tid(b), tid(c)}
	if t, ok := tt.m[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, a: a, b: b, c: c, id: tt.next, sv: -1}
	tt.next++
	if op == OVar {
		t.vars = []int32{int32(k)}
	} else {
		if a != nil {
			t.vars = a.vars
		}
		if b != nil {
			t.vars = mergeVars(t.vars, b.vars)
		}
		if c != nil {
			t.vars = mergeVars(t.vars, c.vars)
		}
	}
	if len(t.vars) == 1 && tt.vars[t.vars[0]].w == 8 {
		t.sv = t.vars[0]
		if w == 0 {
			s := Set256{}
			for i := uint64(0); i < 256; i++ {
				if tt.evalOne(t, i) != 0 {
					s.add(i)
				}
			}
			if s.empty() {
				tt.m[key] = tt.F
				return tt.F
			}
			if s == fullSet {
				tt.m[key] = tt.T
				return tt.T
			}
			t.set = &s
		} else if op != OVar {
			// constant-valued terms fold
			tab := tt.table(t)
			c0 := tab[0]
			same := true
			for i := 1; i < 256; i++ {
				if tab[i] != c0 {
					same = false
					break
				}
			}
			if same {
				r := tt.Const(w, c0)
				tt.m[key] = r
				return r
			}
		}
	}
	tt.m[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (tt *TermTable) Const(w uint8, v uint64) *Term {
	return tt.mk(OConst, w, v&mask(w), nil, nil, nil)
}
func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}
func (tt *TermTable) isConst(t *Term) bool { return t.op == OConst }

// Var returns the variable with the given index (index is global on a worker)
func (tt *TermTable) Var(idx int, w uint8, name string) *Term {
	for len(tt.vars) <= idx {
		tt.vars = append(tt.vars, VarInfo{})
		tt.vt = append(tt.vt, nil)
	}
	if tt.vars[idx].w == 0 {
		tt.vars[idx] = VarInfo{w, name}
		tt.vt[idx] = tt.mk(OVar, w, uint64(idx), nil, nil, nil)
	}
	return tt.vt[idx]
}

func evalOp(op Op, w uint8, aw uint8, a, b, c uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	case OZext:
		return a
	case OSext:
		return uint64(sext(a, aw)) & m
	case OExtract:
		return a & m
	case OIte:
		if a != 0 {
			return b
		}
		return c
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBNot:
		return 1 - a
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// table of values of a single-byte-variable term
func (tt *TermTable) table(t *Term) *[256]uint64 {
	if t.tab != nil {
		return t.tab
	}
	tab := &[256]uint64{}
	for i := uint64(0); i < 256; i++ {
		tab[i] = tt.evalOne(t, i)
	}
	t.tab = tab
	return tab
}

func (tt *TermTable) evalOne(t *Term, v uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return v
	}
	if t.tab != nil {
		return t.tab[v]
	}
	if t.set != nil {
		return b2u(t.set.has(v))
	}
	var a, b, c uint64
	var aw uint8
	if t.a != nil {
		a = tt.evalOne(t.a, v)
		aw = t.a.w
	}
	if t.op == OIte {
		if a != 0 {
			return tt.evalOne(t.b, v)
		}
		return tt.evalOne(t.c, v)
	}
	if t.b != nil {
		b = tt.evalOne(t.b, v)
	}
	if t.c != nil {
		c = tt.evalOne(t.c, v)
	}
	return evalOp(t.op, t.w, aw, a, b, c)
}

// Eval evaluates a term under a full assignment.
func (tt *TermTable) Eval(t *Term, model []uint64) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.op == OVar {
		if int(t.k) < len(model) {
			return model[t.k]
		}
		return 0
	}
	if t.sv >= 0 && (t.set != nil || t.tab != nil) {
		var v uint64
		if int(t.sv) < len(model) {
			v = model[t.sv]
		}
		return tt.evalOne(t, v)
	}
	memo := map[uint32]uint64{}
	return tt.evalMemo(t, model, memo)
}

func (tt *TermTable) evalMemo(t *Term, model []uint64, memo map[uint32]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		if int(t.k) < len(model) {
			return model[t.k]
		}
		return 0
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var a, b, c uint64
	var aw uint8
	if t.a != nil {
		a = tt.evalMemo(t.a, model, memo)
		aw = t.a.w
	}
	if t.b != nil {
		b = tt.evalMemo(t.b, model, memo)
	}
	if t.c != nil {
		c = tt.evalMemo(t.c, model, memo)
	}
	r := evalOp(t.op, t.w, aw, a, b, c)
	memo[t.id] = r
	return r
}

func (tt *TermTable) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %d", a.w, b.w, op))
	}
	w := a.w
	if op >= OEq {
		w = 0
	}
	if a.op == OConst && b.op == OConst {
		v := evalOp(op, w, a.w, a.k, b.k, 0)
		if w == 0 {
			return tt.Bool(v != 0)
		}
		return tt.Const(w, v)
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
		if b.op == OConst && a.op == OAdd && a.b.op == OConst {
			return tt.Bin(OAdd, a.a, tt.Const(w, a.b.k+b.k))
		}
		if b.op == OConst && a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return tt.Ite(a.a, tt.Bin(OAdd, a.b, b), tt.Bin(OAdd, a.c, b))
		}
	case OSub:
		if b.op == OConst {
			return tt.Bin(OAdd, a, tt.Const(w, -b.k))
		}
		if a == b {
			return tt.Const(w, 0)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OOr, OXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst && b.k == 0 {
			return a
		}
	case OEq:
		if a == b {
			return tt.T
		}
		if a.op == OConst {
			a, b = b, a
		}
		if a.w == 0 { // bool equality
			if b.op == OConst {
				if b.k != 0 {
					return a
				}
				return tt.Not(a)
			}
		} else if b.op == OConst {
			switch a.op {
			case OZext:
				if b.k > mask(a.a.w) {
					return tt.F
				}
				return tt.Bin(OEq, a.a, tt.Const(a.a.w, b.k))
			case OAdd:
				if a.b.op == OConst {
					return tt.Bin(OEq, a.a, tt.Const(w2(a), b.k-a.b.k))
				}
			case OIte:
				if a.b.op == OConst && a.c.op == OConst {
					x, y := a.b.k == b.k, a.c.k == b.k
					switch {
					case x && y:
						return tt.T
					case x:
						return a.a
					case y:
						return tt.Not(a.a)
					default:
						return tt.F
					}
				}
			}
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.Bin(OEq, a.a, b.a)
		}
		if b.op != OConst && a.id > b.id {
			a, b = b, a
		}
	case OUlt, OUle, OSlt, OSle:
		if a == b {
			return tt.Bool(op == OUle || op == OSle)
		}
		// zero-extended operands: signed compare is unsigned on the small width
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			o := op
			if o == OSlt {
				o = OUlt
			} else if o == OSle {
				o = OUle
			}
			return tt.Bin(o, a.a, b.a)
		}
	}
	return tt.mk(op, w, 0, a, b, nil)
}

func w2(t *Term) uint8 { return t.w }

func (tt *TermTable) Not(a *Term) *Term {
	if a.neg != nil {
		return a.neg
	}
	var r *Term
	switch a.op {
	case OConst:
		r = tt.Bool(a.k == 0)
	case OBNot:
		r = a.a
	case OUlt:
		r = tt.Bin(OUle, a.b, a.a)
	case OUle:
		r = tt.Bin(OUlt, a.b, a.a)
	case OSlt:
		r = tt.Bin(OSle, a.b, a.a)
	case OSle:
		r = tt.Bin(OSlt, a.b, a.a)
	default:
		r = tt.mk(OBNot, 0, 0, a, nil, nil)
	}
	a.neg = r
	if r.neg == nil {
		r.neg = a
	}
	return r
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a == tt.T || a == b {
		return b
	}
	if b == tt.T {
		return a
	}
	if a == tt.F || b == tt.F {
		return tt.F
	}
	if a.neg == b || b.neg == a {
		return tt.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OBAnd, 0, 0, a, b, nil)
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a == tt.F || a == b {
		return b
	}
	if b == tt.F {
		return a
	}
	if a == tt.T || b == tt.T {
		return tt.T
	}
	if a.neg == b || b.neg == a {
		return tt.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OBOr, 0, 0, a, b, nil)
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
	}
	return tt.mk(OIte, a.w, 0, c, a, b)
}

func (tt *TermTable) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return tt.Const(w, a.k)
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	return tt.mk(OZext, w, 0, a, nil, nil)
}

func (tt *TermTable) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return tt.Const(w, uint64(sext(a.k, a.w)))
	}
	if a.op == OZext {
		return tt.Zext(a.a, w)
	}
	return tt.mk(OSext, w, 0, a, nil, nil)
}

func (tt *TermTable) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return tt.Const(w, a.k)
	}
	if a.op == OZext || a.op == OSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w < w {
			if a.op == OZext {
				return tt.Zext(a.a, w)
			}
			return tt.Sext(a.a, w)
		}
		return tt.Trunc(a.a, w)
	}
	return tt.mk(OExtract, w, 0, a, nil, nil)
}

// ---- printing

func (tt *TermTable) varName(id int32) string {
	if tt.norm {
		return "x"
	}
	return fmt.Sprintf("v%d_%d", id, tt.vars[id].w)
}

func (tt *TermTable) smt(t *Term, sb *strings.Builder) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
		} else {
			fmt.Fprintf(sb, "(_ bv%d %d)", t.k, t.w)
		}
	case OVar:
		sb.WriteString(tt.varName(int32(t.k)))
	case OZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", t.w-t.a.w)
		tt.smt(t.a, sb)
		sb.WriteString(")")
	case OSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", t.w-t.a.w)
		tt.smt(t.a, sb)
		sb.WriteString(")")
	case OExtract:
		fmt.Fprintf(sb, "((_ extract %d 0) ", t.w-1)
		tt.smt(t.a, sb)
		sb.WriteString(")")
	default:
		sb.WriteString("(")
		sb.WriteString(opName[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" ")
				tt.smt(x, sb)
			}
		}
		sb.WriteString(")")
	}
}

// dag size capped
func termTreeSize(t *Term, cap int) int {
	n := 1
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			n += termTreeSize(x, cap-n)
			if n >= cap {
				return n
			}
		}
	}
	return n
}

// smtAssert prints (assert t), sharing sub-terms through define-fun when the tree is large.
func (tt *TermTable) smtAssert(t *Term, sb *strings.Builder) {
	if termTreeSize(t, 2000) < 2000 {
		sb.WriteString("(assert ")
		tt.smt(t, sb)
		sb.WriteString(")\n")
		return
	}
	// let-chain over the DAG in topological order
	var order []*Term
	seen := map[uint32]bool{}
	var visit func(*Term)
	visit = func(x *Term) {
		if x == nil || seen[x.id] || x.op == OConst || x.op == OVar {
			return
		}
		seen[x.id] = true
		visit(x.a)
		visit(x.b)
		visit(x.c)
		order = append(order, x)
	}
	visit(t)
	sort.SliceStable(order, func(i, j int) bool { return false })
	sb.WriteString("(assert ")
	ref := func(x *Term) string {
		if x.op == OConst || x.op == OVar {
			b := &strings.Builder{}
			tt.smt(x, b)
			return b.String()
		}
		return fmt.Sprintf("t%d", x.id)
	}
	for _, x := range order {
		fmt.Fprintf(sb, "(let ((t%d ", x.id)
		switch x.op {
		case OZext:
			fmt.Fprintf(sb, "((_ zero_extend %d) %s)", x.w-x.a.w, ref(x.a))
		case OSext:
			fmt.Fprintf(sb, "((_ sign_extend %d) %s)", x.w-x.a.w, ref(x.a))
		case OExtract:
			fmt.Fprintf(sb, "((_ extract %d 0) %s)", x.w-1, ref(x.a))
		default:
			sb.WriteString("(" + opName[x.op])
			for _, y := range []*Term{x.a, x.b, x.c} {
				if y != nil {
					sb.WriteString(" " + ref(y))
				}
			}
			sb.WriteString(")")
		}
		sb.WriteString(")) ")
	}
	sb.WriteString(ref(t))
	sb.WriteString(strings.Repeat(")", len(order)))
	sb.WriteString(")\n")
}
