package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type OpC uint16

const (
	INop OpC = iota
	IAlloc
	IBinInt
	IBinFloat
	IBinStr
	IBinBool
	IEq // generic equality (k=1: negate)
	ICall
	IChangeType
	IConvert
	IDefer
	IExtract
	IField
	IFieldAddr
	IGo
	IIf
	IIndex
	IIndexAddr
	IJump
	ILookup
	IMakeChan
	IMakeClosure
	IMakeIface
	IMakeMap
	IMakeSlice
	IMapUpdate
	INext
	IPanic
	IRange
	IReturn
	IRunDefers
	ISelect
	ISend
	ISlice
	ISliceToArr
	IStore
	ITypeAssert
	ILoad
	INot
	INeg
	IRecv
	IXor // bitwise complement
)

type move struct{ dst, src int32 }

type Edge struct {
	pc    int32
	moves []move
}

type Ins struct {
	op      OpC
	dst     int32
	a, b, c int32
	k, k2   int
	t, t2   *RType
	aux     any
	pos     token.Pos
}

type IfInfo struct {
	t, f Edge
}

type CallInfo struct {
	fn      *Func // static
	fv      int32 // dynamic func value operand
	dyn     bool
	invoke  bool
	method  *types.Func
	mname   string
	recv    int32
	args    []int32
	builtin string
	argT    []*RType
	resT    *RType
	nres    int
}

type SelState struct {
	send bool
	ch   int32
	val  int32
	t    *RType
}

type SelInfo struct {
	states   []SelState
	blocking bool
}

type Func struct {
	fn        *ssa.Function
	name      string
	once      sync.Once
	code      []Ins
	consts    []Value
	nregs     int
	nparams   int
	recoverPC int32
	res       *RType
	nres      int
	resTypes  []*RType
	in        Intrinsic
	fast      func(w *Worker, args []Value) (Value, bool)
	model     *Func
	stub      bool
	unsup     bool
	isRepo    bool
	prog      *Program
	ptypes    []*RType
	variadic  bool
	blockPC   []int32
	pure      bool
}

type Program struct {
	prog     *ssa.Program
	types    TypeTable
	mu       sync.RWMutex
	funcs    map[*ssa.Function]*Func
	globals  map[*ssa.Global]int
	glist    []*ssa.Global
	models   map[string]*ssa.Function
	stubPkg  func(path string) bool
	repoPfx  string
	symPkg   string
	modPkg   string
	modelPkg *ssa.Package
}

func (p *Program) rt(t types.Type) *RType {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.types.get(t)
}

func (p *Program) getFunc(f *ssa.Function) *Func {
	p.mu.RLock()
	fn := p.funcs[f]
	p.mu.RUnlock()
	if fn != nil {
		return fn
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if fn := p.funcs[f]; fn != nil {
		return fn
	}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	fn = &Func{fn: f, name: name, prog: p, nparams: len(f.Params)}
	res := f.Signature.Results()
	fn.nres = res.Len()
	for i := 0; i < res.Len(); i++ {
		fn.resTypes = append(fn.resTypes, p.types.get(res.At(i).Type()))
	}
	if fn.nres == 1 {
		fn.res = fn.resTypes[0]
	}
	for _, q := range f.Params {
		fn.ptypes = append(fn.ptypes, p.types.get(q.Type()))
	}
	fn.variadic = f.Signature.Variadic()
	pkgPath := ""
	if f.Pkg != nil {
		pkgPath = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkgPath = o.Pkg().Path()
	}
	fn.isRepo = len(pkgPath) >= len(p.repoPfx) && pkgPath[:len(p.repoPfx)] == p.repoPfx && pkgPath != p.symPkg && pkgPath != p.modPkg
	if in, ok := intrinsics[name]; ok {
		fn.in = in
	} else if m, ok := p.models[name]; ok && m != f {
		p.mu.Unlock()
		fn.model = p.getFunc(m)
		p.mu.Lock()
	} else if p.stubPkg(pkgPath) {
		fn.stub = true
		fn.unsup = !quietStub(pkgPath)
	}
	fn.fast = fastpaths[name]
	p.funcs[f] = fn
	return fn
}

const globalBase = int32(-(1 << 29))

type compiler struct {
	p      *Program
	f      *Func
	regs   map[ssa.Value]int32
	ncons  map[string]int32
	blocks map[*ssa.BasicBlock]int32
	fix    []func()
}

func (f *Func) compile() {
	f.once.Do(func() {
		c := &compiler{p: f.prog, f: f, regs: map[ssa.Value]int32{}, ncons: map[string]int32{}, blocks: map[*ssa.BasicBlock]int32{}}
		c.run()
	})
}

func (c *compiler) newReg(v ssa.Value) int32 {
	r := int32(c.f.nregs)
	c.f.nregs++
	c.regs[v] = r
	return r
}

func (c *compiler) constant(v Value) int32 {
	c.f.consts = append(c.f.consts, v)
	return ^int32(len(c.f.consts) - 1)
}

func (p *Program) globalIdx(g *ssa.Global) int32 {
	p.mu.Lock()
	defer p.mu.Unlock()
	i, ok := p.globals[g]
	if !ok {
		i = len(p.glist)
		p.glist = append(p.glist, g)
		p.globals[g] = i
	}
	return int32(i)
}

func (c *compiler) opnd(v ssa.Value) int32 {
	if v == nil {
		return c.constant(Value{})
	}
	if r, ok := c.regs[v]; ok {
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return c.constant(c.constVal(v))
	case *ssa.Global:
		return globalBase - c.p.globalIdx(v)
	case *ssa.Function:
		return c.constant(Value{o: &Closure{fn: c.p.getFunc(v)}})
	case *ssa.Builtin:
		return c.constant(Value{})
	}
	// instruction register not yet assigned (forward reference through phi)
	return c.newReg(v)
}

func (c *compiler) constVal(k *ssa.Const) Value {
	r := c.p.rt(k.Type())
	if k.Value == nil {
		if r.isAgg() {
			return Value{o: &Agg{make([]Value, r.slots)}}
		}
		return Value{}
	}
	switch r.kind {
	case KBool:
		return vBool(constant.BoolVal(k.Value))
	case KInt:
		if r.signed {
			i, _ := constant.Int64Val(constant.ToInt(k.Value))
			return Value{n: uint64(i)}
		}
		u, _ := constant.Uint64Val(constant.ToInt(k.Value))
		return Value{n: u & mask(r.w)}
	case KFloat:
		f, _ := constant.Float64Val(k.Value)
		if r.w == 32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	case KString:
		if k.Value.Kind() == constant.String {
			return vStr(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return vStr(string(rune(i)))
	case KIface:
		panic(engineErr("iface const"))
	case KComplex:
		return Value{}
	}
	return Value{}
}

func (c *compiler) run() {
	f := c.f.fn
	for _, p := range f.Params {
		c.newReg(p)
	}
	for _, p := range f.FreeVars {
		c.newReg(p)
	}
	c.f.recoverPC = -1
	if len(f.Blocks) == 0 {
		return
	}
	// assign registers
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, done := c.regs[v]; !done {
					c.newReg(v)
				}
			}
		}
	}
	c.f.blockPC = make([]int32, len(f.Blocks))
	for _, b := range f.Blocks {
		c.f.blockPC[b.Index] = int32(len(c.f.code))
		for _, in := range b.Instrs {
			c.instr(b, in)
		}
	}
	for _, fx := range c.fix {
		fx()
	}
	if f.Recover != nil {
		c.f.recoverPC = c.f.blockPC[f.Recover.Index]
	}
}

func (c *compiler) emit(i Ins) {
	c.f.code = append(c.f.code, i)
}

func (c *compiler) edge(from, to *ssa.BasicBlock, which int) Edge {
	e := Edge{}
	// index of this edge in to.Preds (duplicates: the which-th occurrence)
	idx := -1
	occ := 0
	for i, p := range to.Preds {
		if p == from {
			if occ == which {
				idx = i
				break
			}
			occ++
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		dst := c.regs[phi]
		src := c.opnd(phi.Edges[idx])
		if dst != src {
			e.moves = append(e.moves, move{dst, src})
		}
	}
	return e
}

func (c *compiler) instr(b *ssa.BasicBlock, in ssa.Instruction) {
	p := c.p
	var dst int32 = -1
	var vt *RType
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
		if _, isTuple := v.Type().(*types.Tuple); !isTuple {
			if _, isRange := in.(*ssa.Range); !isRange {
				vt = p.rt(v.Type())
			}
		}
	}
	pos := in.Pos()
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
	case *ssa.Alloc:
		c.emit(Ins{op: IAlloc, dst: dst, t: vt.elem, pos: pos})
	case *ssa.BinOp:
		xt := p.rt(in.X.Type())
		i := Ins{dst: dst, a: c.opnd(in.X), b: c.opnd(in.Y), k: int(in.Op), t: xt, pos: pos}
		switch {
		case (in.Op == token.EQL || in.Op == token.NEQ) && xt.kind != KInt:
			i.op = IEq
			i.k = 0
			if in.Op == token.NEQ {
				i.k = 1
			}
			// comparison between interface and concrete
			yt := p.rt(in.Y.Type())
			if xt.kind == KIface != (yt.kind == KIface) {
				if _, isC := in.Y.(*ssa.Const); !isC || yt.kind != KPtr {
					if yt.kind == KIface && xt.kind != KIface {
						i.t2 = xt // x must be boxed
						i.t = yt
						i.k2 = 1
					} else if xt.kind == KIface {
						i.t2 = yt
						i.k2 = 2
					}
				}
			}
		case xt.kind == KInt:
			i.op = IBinInt
			if in.Op == token.SHL || in.Op == token.SHR {
				i.t2 = p.rt(in.Y.Type())
			}
		case xt.kind == KFloat:
			i.op = IBinFloat
		case xt.kind == KString:
			i.op = IBinStr
		case xt.kind == KBool:
			i.op = IBinBool
		default:
			panic(engineErr("binop on " + xt.String()))
		}
		c.emit(i)
	case *ssa.Call:
		c.emit(Ins{op: ICall, dst: dst, aux: c.call(&in.Call, in.Type()), pos: pos})
	case *ssa.ChangeInterface:
		c.emit(Ins{op: IChangeType, dst: dst, a: c.opnd(in.X), pos: pos})
	case *ssa.ChangeType:
		c.emit(Ins{op: IChangeType, dst: dst, a: c.opnd(in.X), pos: pos})
	case *ssa.Convert:
		c.emit(Ins{op: IConvert, dst: dst, a: c.opnd(in.X), t: p.rt(in.X.Type()), t2: vt, pos: pos})
	case *ssa.MultiConvert:
		c.emit(Ins{op: IConvert, dst: dst, a: c.opnd(in.X), t: p.rt(in.X.Type()), t2: vt, pos: pos})
	case *ssa.Defer:
		c.emit(Ins{op: IDefer, aux: c.call(&in.Call, nil), pos: pos})
	case *ssa.Extract:
		c.emit(Ins{op: IExtract, dst: dst, a: c.opnd(in.Tuple), k: in.Index, pos: pos})
	case *ssa.Field:
		st := p.rt(in.X.Type())
		c.emit(Ins{op: IField, dst: dst, a: c.opnd(in.X), k: st.offs[in.Field], t: vt, pos: pos})
	case *ssa.FieldAddr:
		st := p.rt(in.X.Type()).elem
		c.emit(Ins{op: IFieldAddr, dst: dst, a: c.opnd(in.X), k: st.offs[in.Field], pos: pos})
	case *ssa.Go:
		c.emit(Ins{op: IGo, aux: c.call(&in.Call, nil), pos: pos})
	case *ssa.If:
		info := &IfInfo{}
		s0, s1 := b.Succs[0], b.Succs[1]
		w1 := 0
		if s0 == s1 {
			w1 = 1
		}
		info.t = c.edge(b, s0, 0)
		info.f = c.edge(b, s1, w1)
		c.fix = append(c.fix, func() {
			info.t.pc = c.f.blockPC[s0.Index]
			info.f.pc = c.f.blockPC[s1.Index]
		})
		c.emit(Ins{op: IIf, a: c.opnd(in.Cond), aux: info, pos: pos})
	case *ssa.Index:
		c.emit(Ins{op: IIndex, dst: dst, a: c.opnd(in.X), b: c.opnd(in.Index), t: p.rt(in.X.Type()), t2: p.rt(in.Index.Type()), pos: pos})
	case *ssa.IndexAddr:
		xt := p.rt(in.X.Type())
		i := Ins{op: IIndexAddr, dst: dst, a: c.opnd(in.X), b: c.opnd(in.Index), t2: p.rt(in.Index.Type()), pos: pos}
		if xt.kind == KSlice {
			i.t = xt.elem
			i.k = -1
		} else {
			i.t = xt.elem.elem
			i.k = xt.elem.alen
		}
		c.emit(i)
	case *ssa.Jump:
		e := c.edge(b, b.Succs[0], 0)
		ep := &e
		s0 := b.Succs[0]
		c.fix = append(c.fix, func() { ep.pc = c.f.blockPC[s0.Index] })
		c.emit(Ins{op: IJump, aux: ep, pos: pos})
	case *ssa.Lookup:
		xt := p.rt(in.X.Type())
		i := Ins{op: ILookup, dst: dst, a: c.opnd(in.X), b: c.opnd(in.Index), t: xt, t2: p.rt(in.Index.Type()), pos: pos}
		if in.CommaOk {
			i.k = 1
		}
		c.emit(i)
	case *ssa.MakeChan:
		c.emit(Ins{op: IMakeChan, dst: dst, a: c.opnd(in.Size), pos: pos})
	case *ssa.MakeClosure:
		var bs []int32
		for _, x := range in.Bindings {
			bs = append(bs, c.opnd(x))
		}
		c.emit(Ins{op: IMakeClosure, dst: dst, aux: &CallInfo{fn: p.getFunc(in.Fn.(*ssa.Function)), args: bs}, pos: pos})
	case *ssa.MakeInterface:
		c.emit(Ins{op: IMakeIface, dst: dst, a: c.opnd(in.X), t: p.rt(in.X.Type()), pos: pos})
	case *ssa.MakeMap:
		c.emit(Ins{op: IMakeMap, dst: dst, t: vt, pos: pos})
	case *ssa.MakeSlice:
		c.emit(Ins{op: IMakeSlice, dst: dst, a: c.opnd(in.Len), b: c.opnd(in.Cap), t: vt.elem, t2: p.rt(in.Len.Type()), pos: pos})
	case *ssa.MapUpdate:
		c.emit(Ins{op: IMapUpdate, a: c.opnd(in.Map), b: c.opnd(in.Key), c: c.opnd(in.Value), pos: pos})
	case *ssa.Next:
		i := Ins{op: INext, dst: dst, a: c.opnd(in.Iter), pos: pos}
		if in.IsString {
			i.k = 1
		}
		c.emit(i)
	case *ssa.Panic:
		c.emit(Ins{op: IPanic, a: c.opnd(in.X), pos: pos})
	case *ssa.Range:
		c.emit(Ins{op: IRange, dst: dst, a: c.opnd(in.X), t: p.rt(in.X.Type()), pos: pos})
	case *ssa.Return:
		var rs []int32
		for _, x := range in.Results {
			rs = append(rs, c.opnd(x))
		}
		i := Ins{op: IReturn, k: len(rs), pos: pos}
		if len(rs) == 1 {
			i.a = rs[0]
		} else {
			i.aux = rs
		}
		c.emit(i)
	case *ssa.RunDefers:
		c.emit(Ins{op: IRunDefers, pos: pos})
	case *ssa.Select:
		si := &SelInfo{blocking: in.Blocking}
		for _, s := range in.States {
			st := SelState{send: s.Dir == types.SendOnly, ch: c.opnd(s.Chan), t: p.rt(s.Chan.Type()).elem}
			if st.send {
				st.val = c.opnd(s.Send)
			}
			si.states = append(si.states, st)
		}
		c.emit(Ins{op: ISelect, dst: dst, aux: si, pos: pos})
	case *ssa.Send:
		c.emit(Ins{op: ISend, a: c.opnd(in.Chan), b: c.opnd(in.X), pos: pos})
	case *ssa.Slice:
		xt := p.rt(in.X.Type())
		var lo, hi, mx int32
		none := int32(math.MaxInt32)
		lo, hi, mx = none, none, none
		if in.Low != nil {
			lo = c.opnd(in.Low)
		}
		if in.High != nil {
			hi = c.opnd(in.High)
		}
		if in.Max != nil {
			mx = c.opnd(in.Max)
		}
		c.emit(Ins{op: ISlice, dst: dst, a: c.opnd(in.X), t: xt, aux: [3]int32{lo, hi, mx}, pos: pos})
	case *ssa.SliceToArrayPointer:
		c.emit(Ins{op: ISliceToArr, dst: dst, a: c.opnd(in.X), k: vt.elem.alen, pos: pos})
	case *ssa.Store:
		c.emit(Ins{op: IStore, a: c.opnd(in.Addr), b: c.opnd(in.Val), t: p.rt(in.Val.Type()), pos: pos})
	case *ssa.TypeAssert:
		i := Ins{op: ITypeAssert, dst: dst, a: c.opnd(in.X), t: p.rt(in.AssertedType), pos: pos}
		if in.CommaOk {
			i.k = 1
		}
		c.emit(i)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			c.emit(Ins{op: ILoad, dst: dst, a: c.opnd(in.X), t: vt, pos: pos})
		case token.NOT:
			c.emit(Ins{op: INot, dst: dst, a: c.opnd(in.X), pos: pos})
		case token.SUB:
			c.emit(Ins{op: INeg, dst: dst, a: c.opnd(in.X), t: vt, pos: pos})
		case token.XOR:
			c.emit(Ins{op: IXor, dst: dst, a: c.opnd(in.X), t: vt, pos: pos})
		case token.ARROW:
			i := Ins{op: IRecv, dst: dst, a: c.opnd(in.X), t: p.rt(in.X.Type()).elem, pos: pos}
			if in.CommaOk {
				i.k = 1
			}
			c.emit(i)
		default:
			panic(engineErr("unop " + in.Op.String()))
		}
	default:
		panic(engineErr(fmt.Sprintf("instr %T", in)))
	}
}

func (c *compiler) call(cc *ssa.CallCommon, rt types.Type) *CallInfo {
	ci := &CallInfo{}
	for _, a := range cc.Args {
		ci.args = append(ci.args, c.opnd(a))
		ci.argT = append(ci.argT, c.p.rt(a.Type()))
	}
	if cc.IsInvoke() {
		ci.invoke = true
		ci.method = cc.Method
		ci.mname = cc.Method.Id()
		ci.recv = c.opnd(cc.Value)
		return ci
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		ci.builtin = v.Name()
		if rt != nil {
			if _, ok := rt.(*types.Tuple); !ok {
				ci.resT = c.p.rt(rt)
			}
		}
	case *ssa.Function:
		ci.fn = c.p.getFunc(v)
	default:
		ci.dyn = true
		ci.fv = c.opnd(cc.Value)
	}
	return ci
}
