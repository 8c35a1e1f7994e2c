package main

import (
	"fmt"
	"go/types"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Input is one harness-level symbolic input (or choice), in request order; the
// sequence of their concrete values is what a native replay consumes.
type Input struct {
	Kind string // byte,int,bool,choice,sched,maporder
	Name string
	t    *Term
	v    int64
	sgn  bool
}

type alt struct {
	cond *Term
	m    map[int32]uint64
	idx  int32
}

type checkpoint struct {
	jmark   int
	gs      []G
	cur     int
	pc      PathCond
	steps   int64
	insDecs []int32
	insDoms []Set256 // byte domains before the first decision of the instruction
	alts    []alt
	dlen    int
	nin     int
	ncov    int
	nrec    int
	nnote   int
	chanSeq int
	insPos  int
	flags   wflags
}

type wflags struct {
	raceOn, mapOrder, schedChoice bool
	budget                        int64
	mapDev                        int
}

type Stats struct {
	Paths, Done, Assumed, Viol, Budget, Unsupported, Deadlock, Panics int64
	Unknown                                                           int64
	Forks, Regions, RegionStates                                      int64
	Steps                                                             int64
	Asserts, AssertSym                                                int64
	Replays                                                           int64
}

type Violation struct {
	Kind    string
	Msg     string
	Where   string
	Inputs  []InputVal
	Notes   []string
	Harness string
	Replay  *ReplayResult `json:",omitempty"`
}

type InputVal struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Val  int64  `json:"val"`
}

type Worker struct {
	id     int
	prog   *Program
	tt     *TermTable
	solver *Solver
	pc     PathCond
	varIdx map[[2]int]int

	unaryCache  map[unaryKey]bool
	narrowCache map[narrowKey]bool
	multiCache  map[string]multiRes
	stats       Stats
	sstats      SolveStats

	globals  []*Obj
	gs       []*G
	cur      *G
	steps    int64
	budget   int64
	maxAlloc int64
	epoch    uint32
	epochCtr uint32
	journal  []undo
	fpool    map[*Func][]*Frame

	cps        []*checkpoint
	dlog       []int32
	forced     []int32
	fpos       int
	insDecs    []int32
	insDoms    []Set256 // byte domains before the first decision of the instruction
	insDomStep int64
	insPos     int
	insStep    int64

	inputs    []Input
	covers    []string
	notes     []string
	recovered []string

	wflags2
	ended    bool
	end      pathEnd
	result   Value
	tail     *tailCall
	curFn    *Func
	curCall  *CallInfo
	chanSeq  int
	merge    bool
	debug    bool
	raceInit bool
	mapDev   int // how many iterations over maps may still go the other way round

	raceOn, mapOrder, schedChoice bool

	rtErrType *RType
	implCache map[implKey]bool
	methCache map[methKey]*Func
	funcsSeen map[*Func]bool
	side      map[any]any
	conc      bool // concrete mode: no forks expected

	job       *Job
	vfs       *VFS
	live      map[*Func]*liveInfo
	cache     map[string]Value
	profile   map[*Func]int64
	forkSites map[string]int64
	replayIn  []InputVal
	replayPos int
	isReplay  bool
	logs      []string
}

type wflags2 struct{}

func (w *Worker) covered(fn *Func) {
	if !w.funcsSeen[fn] {
		w.funcsSeen[fn] = true
	}
}

func (w *Worker) replaying() bool { return w.insPos < len(w.insDecs) && w.insStep == w.steps }

// decide resolves a boolean condition, forking when both outcomes are feasible.
func (w *Worker) decide(t *Term) bool {
	if t.op == OConst {
		return t.k != 0
	}
	if w.replaying() {
		d := w.insDecs[w.insPos]
		w.insPos++
		return d == 1
	}
	yes, no, my, mn := w.both(t)
	switch {
	case yes && !no:
		w.pushDec(1)
		return true
	case no && !yes:
		w.pushDec(0)
		return false
	case !yes && !no:
		panic(pathEnd{"unsupported", "infeasible path condition"})
	}
	return w.fork([]alt{{t, my, 1}, {w.tt.Not(t), mn, 0}}) == 1
}

func (w *Worker) pushDec(d int32) {
	w.insDecs = append(w.insDecs, d)
	w.insPos = len(w.insDecs)
	w.insStep = w.steps
}

// choose is an unconstrained n-way nondeterministic choice.
func (w *Worker) choose(n int, kind string) int {
	if n == 1 {
		return 0
	}
	if w.replaying() {
		d := w.insDecs[w.insPos]
		w.insPos++
		return int(d)
	}
	alts := make([]alt, n)
	for i := range alts {
		alts[i].idx = int32(i)
	}
	// the input record is appended after the fork so that every alternative records its own value
	return int(w.fork(alts))
}

// fork takes one of the feasible alternatives now and remembers the others.
func (w *Worker) fork(alts []alt) int32 {
	w.stats.Forks++
	if w.forkSites != nil {
		w.forkSites[w.posString(w.codePos())]++
	}
	if w.conc {
		panic(pathEnd{"unsupported", "fork in concrete mode at " + w.where()})
	}
	if w.fpos < len(w.forced) {
		d := w.forced[w.fpos]
		w.fpos++
		for _, a := range alts {
			if a.idx == d {
				w.take(a)
				return a.idx
			}
		}
		panic(pathEnd{"unsupported", fmt.Sprintf("replay diverged (decision %d of %d alternatives) at %s", d, len(alts), w.where())})
	}
	w.checkpoint(alts[1:])
	w.take(alts[0])
	return alts[0].idx
}

func (w *Worker) take(a alt) {
	if w.insDomStep != w.steps {
		w.insDoms = append(w.insDoms[:0], w.pc.doms...)
		w.insDomStep = w.steps
	}
	w.dlog = append(w.dlog, a.idx)
	if a.cond != nil {
		w.addPC(a.cond, a.m)
	}
	w.pushDec(a.idx)
}

func (w *Worker) checkpoint(alts []alt) {
	cp := &checkpoint{jmark: len(w.journal), cur: w.cur.id, pc: w.pc.snapshot(), steps: w.steps, dlen: len(w.dlog), nin: len(w.inputs), ncov: len(w.covers),
		nrec: len(w.recovered), nnote: len(w.notes), chanSeq: w.chanSeq, alts: append([]alt(nil), alts...)}
	cp.insDecs = append([]int32(nil), w.insDecs...)
	if w.insDomStep == w.steps {
		cp.insDoms = append([]Set256(nil), w.insDoms...)
	} else {
		cp.insDoms = append([]Set256(nil), w.pc.doms...)
	}
	cp.flags = wflags{w.raceOn, w.mapOrder, w.schedChoice, w.budget, w.mapDev}
	cp.gs = make([]G, len(w.gs))
	for i, g := range w.gs {
		if g.top != nil {
			g.top.shared = true
		}
		cp.gs[i] = *g
		if g.vc != nil {
			cp.gs[i].vc = g.vc.clone()
		}
	}
	w.cps = append(w.cps, cp)
	w.epochCtr++
	w.epoch = w.epochCtr
}

// backtrack restores the most recent checkpoint and takes its next alternative.
func (w *Worker) backtrack() bool {
	n := len(w.cps)
	if n == 0 {
		return false
	}
	cp := w.cps[n-1]
	a := cp.alts[0]
	cp.alts = cp.alts[1:]
	last := len(cp.alts) == 0
	w.undoTo(cp.jmark)
	gs := make([]*G, len(cp.gs))
	for i := range cp.gs {
		// keep the identity of goroutine records
		var g *G
		if i < len(w.gs) {
			g = w.gs[i]
		} else {
			g = &G{}
		}
		*g = cp.gs[i]
		if g.vc != nil {
			g.vc = g.vc.clone()
		}
		gs[i] = g
	}
	w.gs = gs
	w.cur = gs[cp.cur]
	if last {
		w.pc = cp.pc
	} else {
		w.pc = cp.pc.snapshot()
	}
	w.steps = cp.steps - 1
	w.insStep = cp.steps
	w.insDecs = append(w.insDecs[:0], cp.insDecs...)
	w.insDoms = append(w.insDoms[:0], cp.insDoms...)
	w.insDomStep = cp.steps
	w.dlog = w.dlog[:cp.dlen]
	w.inputs = w.inputs[:cp.nin]
	w.covers = w.covers[:cp.ncov]
	w.recovered = w.recovered[:cp.nrec]
	w.notes = w.notes[:cp.nnote]
	w.chanSeq = cp.chanSeq
	w.raceOn, w.mapOrder, w.schedChoice, w.budget, w.mapDev = cp.flags.raceOn, cp.flags.mapOrder, cp.flags.schedChoice, cp.flags.budget, cp.flags.mapDev
	w.tail = nil
	w.ended = false
	if last {
		w.cps[n-1] = nil
		w.cps = w.cps[:n-1]
	}
	w.epochCtr++
	w.epoch = w.epochCtr
	w.dlog = append(w.dlog, a.idx)
	if a.cond != nil {
		w.addPC(a.cond, a.m)
	}
	w.insDecs = append(w.insDecs, a.idx)
	w.insPos = 0
	return true
}

// concretize picks the value of a term, forking over the alternatives.
func (w *Worker) concretize(v Value, width uint8) uint64 {
	t, ok := v.o.(*Term)
	if !ok {
		return v.n
	}
	if t.sv >= 0 {
		// enumerate the feasible values in one fork
		tab := w.tt.table(t)
		d := w.pc.doms[t.sv]
		if !w.pc.linked[t.sv] {
			if w.replaying() {
				k := w.insDecs[w.insPos]
				w.insPos++
				// values are re-derived from the table of all byte values (independent of the domain)
				return tabValue(tab, k)
			}
			seen := map[uint64]*Set256{}
			var order []uint64
			for b := uint64(0); b < 256; b++ {
				if d.has(b) {
					s := seen[tab[b]]
					if s == nil {
						s = &Set256{}
						seen[tab[b]] = s
						order = append(order, tab[b])
					}
					s.add(b)
				}
			}
			if len(order) == 0 {
				panic(pathEnd{"unsupported", "empty domain at " + w.where()})
			}
			var alts []alt
			for _, x := range order {
				var c *Term
				if len(order) > 1 {
					c = w.tt.Bin(OEq, t, w.tt.Const(t.w, x))
				}
				alts = append(alts, alt{cond: c, m: map[int32]uint64{t.sv: seen[x].first()}, idx: tabIndex(tab, x)})
			}
			if len(alts) == 1 {
				w.pushDec(alts[0].idx)
				return order[0]
			}
			return tabValue(tab, w.fork(alts))
		}
	}
	for i := 0; i < 100000; i++ {
		if w.replaying() {
			lo, hi := w.insDecs[w.insPos], w.insDecs[w.insPos+1]
			d := w.insDecs[w.insPos+2]
			w.insPos += 3
			if d == 1 {
				return uint64(uint32(lo)) | uint64(uint32(hi))<<32
			}
			continue
		}
		x := w.tt.Eval(t, w.pc.model)
		c := w.tt.Bin(OEq, t, w.tt.Const(t.w, x))
		yes, no, my, mn := w.both(c)
		if !yes && !no {
			panic(pathEnd{"unsupported", "infeasible path condition"})
		}
		if yes && no {
			if w.fpos < len(w.forced) {
				x = uint64(uint32(w.forced[w.fpos])) | uint64(uint32(w.forced[w.fpos+1]))<<32
				w.fpos += 2
				c2 := w.tt.Bin(OEq, t, w.tt.Const(t.w, x))
				if c2 != c {
					c = c2
					_, _, my, mn = w.both(c)
				}
			}
			w.dlog = append(w.dlog, int32(uint32(x)), int32(uint32(x>>32)))
			w.pushDec(int32(uint32(x)))
			w.pushDec(int32(uint32(x >> 32)))
			if w.fork([]alt{{c, my, 1}, {w.tt.Not(c), mn, 0}}) == 1 {
				return x
			}
			continue
		}
		w.pushDec(int32(uint32(x)))
		w.pushDec(int32(uint32(x >> 32)))
		if yes {
			w.pushDec(1)
			return x
		}
		w.pushDec(0)
	}
	panic(pathEnd{"budget", "concretisation bound at " + w.where()})
}

func tabIndex(tab *[256]uint64, x uint64) int32 {
	for i, v := range tab {
		if v == x {
			return int32(i)
		}
	}
	return -1
}

func tabValue(tab *[256]uint64, k int32) uint64 { return tab[k] }

// endPath finishes the current path.
func (w *Worker) endPath(p pathEnd) {
	if w.ended {
		return
	}
	w.ended = true
	w.end = p
}

// ---- jobs: exploration of one harness by several workers

type Job struct {
	name      string
	fn        *ssa.Function
	mu        sync.Mutex
	cond      *sync.Cond
	queue     [][]int32
	active    int
	nworkers  int
	hungry    int32
	done      bool
	deadline  time.Time
	timedOut  bool
	viols     []Violation
	seenV     map[string]int
	covers    map[string]int64
	notes     map[string]int64
	ends      map[string]int64
	examples  map[string][]InputVal
	maxViol   int
	maxPaths  int64
	paths     int64
	budget    int64
	mapOrder  bool
	race      bool
	sched     bool
	samples   [][]InputVal
	nsample   int
	found     map[string]int64
	recovered map[string]int64
}

func (j *Job) get() ([]int32, bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	for {
		if j.done {
			return nil, false
		}
		if n := len(j.queue); n > 0 {
			p := j.queue[0]
			j.queue = j.queue[1:]
			j.active++
			atomic.StoreInt32(&j.hungry, int32(j.waiting()))
			return p, true
		}
		if j.active == 0 {
			j.done = true
			j.cond.Broadcast()
			return nil, false
		}
		j.idle(1)
		j.cond.Wait()
		j.idle(-1)
	}
}

var idleCount int32

func (j *Job) idle(d int32) {
	atomic.AddInt32(&idleCount, d)
	atomic.StoreInt32(&j.hungry, int32(j.waiting()))
}
func (j *Job) waiting() int {
	n := int(atomic.LoadInt32(&idleCount)) - len(j.queue)
	if n < 0 {
		n = 0
	}
	return n
}

func (j *Job) put(p []int32) {
	j.mu.Lock()
	j.queue = append(j.queue, p)
	atomic.StoreInt32(&j.hungry, int32(j.waiting()))
	j.cond.Signal()
	j.mu.Unlock()
}

func (j *Job) finish() {
	j.mu.Lock()
	j.active--
	if j.active == 0 && len(j.queue) == 0 {
		j.done = true
	}
	j.cond.Broadcast()
	j.mu.Unlock()
}

func (j *Job) stop(timeout bool) {
	j.mu.Lock()
	if timeout {
		j.timedOut = true
	}
	j.done = true
	j.cond.Broadcast()
	j.mu.Unlock()
}

func (w *Worker) work(j *Job) {
	w.job = j
	for {
		p, ok := j.get()
		if !ok {
			return
		}
		w.explore(j, p)
		j.finish()
	}
}

// start places the worker at the beginning of the harness.
func (w *Worker) start(j *Job) {
	w.undoTo(0)
	w.cps = w.cps[:0]
	w.pc = PathCond{}
	w.dlog = w.dlog[:0]
	w.inputs = w.inputs[:0]
	w.covers = w.covers[:0]
	w.notes = w.notes[:0]
	w.recovered = w.recovered[:0]
	w.insDecs = w.insDecs[:0]
	w.insDomStep = -1
	w.insPos = 0
	w.steps = 0
	w.insStep = -1
	w.fpos = 0
	w.chanSeq = 0
	w.ended = false
	w.tail = nil
	w.epochCtr++
	w.epoch = w.epochCtr
	w.budget = j.budget
	w.raceOn, w.mapOrder, w.schedChoice, w.mapDev = j.race, j.mapOrder, j.sched, 0
	g := &G{id: 0, name: "main"}
	if w.raceOn {
		g.vc = vclock{1}
	}
	w.gs = []*G{g}
	w.cur = g
	w.push(g, w.prog.getFunc(j.fn), nil, nil, -1, nil)
}

func (w *Worker) explore(j *Job, prefix []int32) {
	w.forced = prefix
	w.start(j)
	if len(prefix) > 0 {
		w.stats.Replays++
	}
	for {
		w.run()
		w.pathDone(j)
		if j.isDone() {
			return
		}
		if time.Now().After(j.deadline) {
			j.stop(true)
			return
		}
		if atomic.LoadInt32(&j.hungry) > 0 {
			w.donate(j)
		}
		if !w.backtrack() {
			return
		}
	}
}

func (j *Job) isDone() bool {
	j.mu.Lock()
	defer j.mu.Unlock()
	return j.done
}

// donate gives the oldest pending alternatives to other workers.
func (w *Worker) donate(j *Job) {
	for k := 0; k < 2 && atomic.LoadInt32(&j.hungry) > 0; k++ {
		if len(w.cps) == 0 || len(w.cps) == 1 && len(w.cps[0].alts) == 1 {
			return
		}
		cp := w.cps[0]
		a := cp.alts[len(cp.alts)-1]
		cp.alts = cp.alts[:len(cp.alts)-1]
		p := append([]int32(nil), w.dlog[:cp.dlen]...)
		p = append(p, a.idx)
		if len(cp.alts) == 0 {
			w.cps = append(w.cps[:0], w.cps[1:]...)
		}
		j.put(p)
	}
}

func (w *Worker) inputVals() []InputVal {
	var r []InputVal
	for _, in := range w.inputs {
		v := in.v
		if in.t != nil {
			x := w.tt.Eval(in.t, w.pc.model)
			if in.sgn {
				v = sext(x, in.t.w)
			} else {
				v = int64(x)
			}
		}
		r = append(r, InputVal{in.Kind, in.Name, v})
	}
	return r
}

func (w *Worker) pathDone(j *Job) {
	w.stats.Paths++
	w.stats.Steps += w.steps
	e := w.end
	j.mu.Lock()
	defer j.mu.Unlock()
	j.paths++
	if j.maxPaths > 0 && j.paths >= j.maxPaths {
		j.timedOut = true
		j.done = true
		j.cond.Broadcast()
	}
	j.ends[e.kind]++
	for _, c := range w.covers {
		j.covers[c]++
	}
	for _, r := range w.recovered {
		j.recovered[r]++
	}
	switch e.kind {
	case "done":
		w.stats.Done++
		if len(j.samples) < 8 || (j.paths%997 == 0 && len(j.samples) < 40) {
			if w.fixModel() {
				j.samples = append(j.samples, w.inputVals())
			}
		}
	case "assume":
		w.stats.Assumed++
	case "violation", "panic", "deadlock", "budget":
		w.stats.Viol++
		j.addViol(w, e.kind, e.msg)
	case "unsupported":
		w.stats.Unsupported++
		k := e.msg
		if len(k) > 600 {
			k = k[:600]
		}
		j.notes["unsupported: "+k]++
		if _, ok := j.examples[k]; !ok && len(j.examples) < 20 && w.fixModel() {
			j.examples[k] = w.inputVals()
		}
	}
}

// addViol records a violation (j.mu held).
func (j *Job) addViol(w *Worker, kind, msg string) {
	key := kind + "|" + msg
	if len(w.notes) > 0 {
		key += "|" + w.notes[len(w.notes)-1]
	}
	j.seenV[key]++
	if j.seenV[key] > 1 || len(j.viols) >= j.maxViol {
		return
	}
	if !w.fixModel() {
		j.notes["violation on a path whose condition the solver could not satisfy: "+key]++
		j.seenV[key]--
		return
	}
	v := Violation{Kind: kind, Msg: msg, Inputs: w.inputVals(), Harness: j.name, Notes: append([]string(nil), w.notes...)}
	j.viols = append(j.viols, v)
}

// assert checks a condition on every value of the current path.
func (w *Worker) assert(c Value, msg string) {
	w.stats.Asserts++
	t, sym := c.o.(*Term)
	if !sym {
		if c.n == 0 {
			panic(pathEnd{"violation", msg})
		}
		return
	}
	w.stats.AssertSym++
	if !w.decide(t) {
		panic(pathEnd{"violation", msg})
	}
}

func implementsIface(t *RType, it *RType) bool {
	i, ok := it.t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	implMu.Lock()
	defer implMu.Unlock()
	return types.Implements(t.t, i)
}

var implMu sync.Mutex

func (p *Program) lookupMethod(t *RType, pkg *types.Package, name string) *Func {
	implMu.Lock()
	sel := p.prog.MethodSets.MethodSet(t.t).Lookup(pkg, name)
	implMu.Unlock()
	if sel == nil {
		return nil
	}
	m := p.prog.MethodValue(sel)
	if m == nil {
		return nil
	}
	return p.getFunc(m)
}
