package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"strings"
	"sync"
)

// PathCond is the state of the path condition: byte domains for single-byte
// constraints (exact), everything else as terms decided by the solver.
type PathCond struct {
	doms   []Set256
	linked []bool
	multi  []*Term
	all    []*Term
	model  []uint64
	nvars  int
}

func (p *PathCond) snapshot() PathCond {
	q := PathCond{multi: p.multi[:len(p.multi):len(p.multi)], all: p.all[:len(p.all):len(p.all)], nvars: p.nvars}
	q.doms = append([]Set256(nil), p.doms...)
	q.linked = append([]bool(nil), p.linked...)
	q.model = append([]uint64(nil), p.model...)
	return q
}

type SolveStats struct {
	Decides, TableSat, CacheHits int64
}

func (w *Worker) growVars(n int) {
	for len(w.pc.doms) < n {
		w.pc.doms = append(w.pc.doms, fullSet)
		w.pc.linked = append(w.pc.linked, false)
		w.pc.model = append(w.pc.model, 0)
	}
}

// newVar allocates the next variable of this path.
func (w *Worker) newVar(width uint8, name string) *Term {
	i := w.pc.nvars
	w.pc.nvars++
	// variables are identified by (sequence, width) on a worker
	idx, ok := w.varIdx[[2]int{i, int(width)}]
	if !ok {
		idx = len(w.tt.vars)
		w.varIdx[[2]int{i, int(width)}] = idx
	}
	t := w.tt.Var(idx, width, name)
	w.growVars(idx + 1)
	w.pc.doms[idx] = fullSet
	w.pc.linked[idx] = false
	w.pc.model[idx] = 0
	if width == 8 {
		w.pc.model[idx] = 'a'
	}
	return t
}

// quick returns 1 true, 0 false, -1 undetermined, using constants and byte domains only.
// Within an instruction that forks, it keeps answering from the domains that held before the
// first fork, so that the instruction takes the same course when it is executed again.
func (w *Worker) quick(t *Term) int {
	if t.op == OConst {
		return int(t.k)
	}
	if t.sv >= 0 && t.set != nil {
		if w.insDomStep == w.steps && int(t.sv) < len(w.insDoms) {
			return w.quickDom(t, &w.insDoms[t.sv])
		}
		return w.quickDom(t, &w.pc.doms[t.sv])
	}
	return -1
}

// quickNow is quick over the domains of the current path condition.
func (w *Worker) quickNow(t *Term) int {
	if t.op == OConst {
		return int(t.k)
	}
	if t.sv >= 0 && t.set != nil {
		return w.quickDom(t, &w.pc.doms[t.sv])
	}
	return -1
}

func (w *Worker) quickDom(t *Term, d *Set256) int {
	in, out := d.and(t.set), d.andNot(t.set)
	if in.empty() {
		w.confirmUnsat(t, d)
		return 0
	}
	if out.empty() {
		w.confirmUnsat(w.tt.Not(t), d)
		return 1
	}
	return -1
}

type unaryKey struct{ d, s Set256 }

// confirmUnsat records that "x in D and t(x)" is claimed unsatisfiable; the
// lemma store has the solver discharge the claim (see lemma.go).
func (w *Worker) confirmUnsat(t *Term, d *Set256, extra ...*Term) {
	w.termLemma(t)
	for _, e := range extra {
		if e != nil {
			w.termLemma(e)
		}
	}
	k := unaryKey{*d, *t.set}
	if w.unaryCache[k] {
		return
	}
	w.unaryCache[k] = true
	lemmas.add(w, "p"+string(setBytes(d))+string(setBytes(t.set)), func(sb *strings.Builder) {
		sb.WriteString("(and ")
		smtSet(d, sb)
		sb.WriteString(" ")
		smtSet(t.set, sb)
		sb.WriteString(")")
	})
}

func (w *Worker) slice(t *Term) ([]*Term, bool) {
	// constraints transitively sharing variables with t
	touched := map[int32]bool{}
	for _, v := range t.vars {
		touched[v] = true
	}
	used := make([]bool, len(w.pc.multi))
	for changed := true; changed; {
		changed = false
		for i, c := range w.pc.multi {
			if used[i] {
				continue
			}
			for _, v := range c.vars {
				if touched[v] {
					used[i] = true
					changed = true
					for _, v2 := range c.vars {
						touched[v2] = true
					}
					break
				}
			}
		}
	}
	var cs []*Term
	for i, c := range w.pc.multi {
		if used[i] {
			cs = append(cs, c)
		}
	}
	for _, c := range w.pc.all {
		if len(c.vars) == 1 && touched[c.vars[0]] && c.sv >= 0 {
			cs = append(cs, c)
		}
	}
	return cs, len(cs) > 0
}

// feasible decides PC && t; on sat returns assignments for the vars involved.
func (w *Worker) feasible(t *Term) (Verdict, map[int32]uint64) {
	cs, _ := w.slice(t)
	ids := make([]byte, 0, 4*len(cs)+4)
	seen := map[uint32]bool{}
	var cs2 []*Term
	for _, c := range cs {
		if !seen[c.id] {
			seen[c.id] = true
			cs2 = append(cs2, c)
			ids = binary.LittleEndian.AppendUint32(ids, c.id)
		}
	}
	ids = binary.LittleEndian.AppendUint32(ids, t.id)
	key := string(ids)
	if r, ok := w.multiCache[key]; ok {
		w.sstats.CacheHits++
		return r.v, r.m
	}
	if dbgFeas {
		w.dbgFeas(t, cs2)
	}
	v, m := w.solver.check(w.tt, append(cs2, t), true)
	if v == VUnknown {
		w.stats.Unknown++
	}
	w.multiCache[key] = multiRes{v, m}
	return v, m
}

type multiRes struct {
	v Verdict
	m map[int32]uint64
}

// both reports feasibility of t and of not t under the path condition.
// m gives models (overrides) for the respective sides when they come from the solver.
func (w *Worker) both(t *Term) (yes, no bool, my, mn map[int32]uint64) {
	if t.op == OConst {
		return t.k != 0, t.k == 0, nil, nil
	}
	w.sstats.Decides++
	if t.sv >= 0 && !w.pc.linked[t.sv] {
		switch w.quickNow(t) {
		case 1:
			return true, false, nil, nil
		case 0:
			return false, true, nil, nil
		}
		w.sstats.TableSat++
		d := &w.pc.doms[t.sv]
		in := d.and(t.set)
		out := d.andNot(t.set)
		return true, true, map[int32]uint64{t.sv: in.first()}, map[int32]uint64{t.sv: out.first()}
	}
	if q := w.quickNow(t); q >= 0 {
		return q == 1, q == 0, nil, nil
	}
	nt := w.tt.Not(t)
	if w.tt.Eval(t, w.pc.model) != 0 {
		v, m := w.feasible(nt)
		return true, v != VUnsat, nil, m
	}
	v, m := w.feasible(t)
	return v != VUnsat, true, m, nil
}

// assume adds t to the path condition; m overrides the model.
func (w *Worker) addPC(t *Term, m map[int32]uint64) {
	if t.op == OConst {
		if t.k == 0 {
			panic(engineErr("assuming false"))
		}
		return
	}
	w.addParts(t)
	for v, x := range m {
		w.pc.model[v] = x
	}
}

func (w *Worker) addParts(t *Term) {
	if t.op == OBAnd {
		w.addParts(t.a)
		w.addParts(t.b)
		return
	}
	if t.op == OBNot && t.a.op == OBOr {
		w.addParts(w.tt.Not(t.a.a))
		w.addParts(w.tt.Not(t.a.b))
		return
	}
	w.pc.all = append(w.pc.all, t)
	if t.sv >= 0 {
		nd := w.pc.doms[t.sv].and(t.set)
		if nd.empty() {
			panic(engineErr("empty domain at " + w.where()))
		}
		w.narrowLemma(t, &w.pc.doms[t.sv], &nd)
		w.pc.doms[t.sv] = nd
		if !nd.has(w.pc.model[t.sv]) && !w.pc.linked[t.sv] {
			w.pc.model[t.sv] = nd.first()
		}
		return
	}
	w.pc.multi = append(w.pc.multi, t)
	for _, v := range t.vars {
		w.pc.linked[v] = true
	}
}

// fixModel makes sure the current model satisfies the path condition; returns false when it cannot.
func (w *Worker) fixModel() bool {
	ok := true
	for _, c := range w.pc.all {
		if w.tt.Eval(c, w.pc.model) == 0 {
			ok = false
			break
		}
	}
	if ok {
		return true
	}
	v, m := w.solver.check(w.tt, w.pc.all, true)
	if v != VSat {
		return false
	}
	for k, x := range m {
		w.pc.model[k] = x
	}
	return true
}

var dbgFeas = os.Getenv("GOSYM_DBGFEAS") != ""
var dbgMu sync.Mutex
var dbgN int

func (w *Worker) dbgFeas(t *Term, cs []*Term) {
	dbgMu.Lock()
	defer dbgMu.Unlock()
	dbgN++
	if dbgN%997 == 1 {
		sb := &strings.Builder{}
		w.tt.smt(t, sb)
		fmt.Println("FEAS", w.posString(w.codePos()), "n", len(cs), "vars", t.vars, "T:", sb.String())
		for _, c := range cs {
			if len(c.vars) > 1 {
				sb.Reset()
				w.tt.smt(c, sb)
				fmt.Println("   C", sb.String())
			}
		}
	}
}
