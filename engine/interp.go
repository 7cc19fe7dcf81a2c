package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Symbolic interpreter for go/ssa.

type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value
type Ptr = *Value
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type BoundNative struct {
	name string
	f    func(m *Machine, args []Value) Value
}
type MapV struct {
	keys []Value
	m    map[interface{}]Value
}
type SymStr struct{ ch []Value } // fixed length, chars concrete (uint64) or *Term
type FmtStr struct {             // textual form of an integer term in a base (unknown length)
	t    *Term
	base int
}

// opaque library values
type BigInt struct{ t *Term }
type FieldEl struct {
	t   *Term
	mod *big.Int
}
type EmuEl struct {
	t   *Term
	mod *big.Int
}
type G1Host struct {
	lc  *LC
	set bool
}
type BufV struct{ b []Value }

// ModelObj is a library object implemented by the engine.
type ModelObj interface {
	Invoke(m *Machine, method string, args []Value) Value
}

type targetPanic struct{ v Value }
type exitSignal struct{}
type pathAbort struct{ why string }
type unsupported struct{ why string }

func unsup(f string, a ...interface{}) Value {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

type funcInfo struct {
	slot map[ssa.Value]int
	n    int
}

type Machine struct {
	prog      *Program
	globals   map[*ssa.Global]Ptr
	inited    map[*ssa.Package]bool
	run       *Run
	depth     int
	steps     int64
	limit     int64
	blocks    map[*ssa.BasicBlock]bool // visited program states
	deferring []*frame
}

type frame struct {
	m         *Machine
	fn        *ssa.Function
	info      *funcInfo
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []func()
	result    Value
	panicking bool
	panicVal  interface{}
	recovered bool
}

func (m *Machine) info(fn *ssa.Function) *funcInfo {
	if fi, ok := m.prog.infos[fn]; ok {
		return fi
	}
	fi := &funcInfo{slot: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.slot[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	m.prog.infos[fn] = fi
	return fi
}

func (f *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return f.m.constVal(v)
	case *ssa.Global:
		return f.m.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	case nil:
		return nil
	}
	if i, ok := f.info.slot[v]; ok {
		return f.env[i]
	}
	panic(unsupported{"no slot for " + v.Name()})
}

func (f *frame) set(v ssa.Value, x Value) { f.env[f.info.slot[v]] = x }

func (m *Machine) global(g *ssa.Global) Ptr {
	if p, ok := m.globals[g]; ok {
		return p
	}
	m.ensureInit(g.Pkg)
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = m.zero(g.Type().(*types.Pointer).Elem())
	m.globals[g] = p
	return p
}

// ensureInit runs a dependency's package initialiser the first time one of its
// globals is touched.
func (m *Machine) ensureInit(pkg *ssa.Package) {
	if m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := m.globals[g]; !ok {
				p := new(Value)
				*p = m.zero(g.Type().(*types.Pointer).Elem())
				m.globals[g] = p
			}
		}
	}
	if pkg != m.prog.main && !interpInit(pkg.Pkg.Path()) {
		return
	}
	if fn := pkg.Func("init"); fn != nil {
		m.call(fn, nil, nil)
	}
}

func interpInit(path string) bool {
	switch path {
	case "strings", "bytes", "strconv", "unicode/utf8", "encoding/hex", "encoding/binary", "io":
		return true
	}
	return false
}

func isMain(fn *ssa.Function, p *Program) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg == p.main
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg() == p.main.Pkg
	}
	return strings.Contains(f.String(), p.main.Pkg.Path())
}

func interpretable(path string) bool {
	switch path {
	case "errors", "strings", "bytes", "sort", "slices", "maps", "strconv", "unicode/utf8", "encoding/hex", "math/bits", "encoding/binary", "unicode", "cmp", "internal/bytealg", "internal/stringslite", "internal/byteorder", "iter":
		return true
	}
	return false
}

func fnPkgPath(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// call runs a function value.
func (m *Machine) call(fv Value, args []Value, caller *frame) Value {
	switch fn := fv.(type) {
	case *ssa.Function:
		if fn == nil {
			m.goPanic("nil function call")
		}
		return m.callSSA(fn, args, nil)
	case *Closure:
		return m.callSSA(fn.fn, args, fn.env)
	case *BoundNative:
		return fn.f(m, args)
	case *ssa.Builtin:
		return m.builtin(fn, args, caller)
	case nil:
		m.goPanic("nil function call")
	}
	return unsup("call of %T", fv)
}

// engineDeadline ends explorations that would not finish in time.
var engineDeadline time.Time

func (m *Machine) callSSA(fn *ssa.Function, args, env []Value) Value {
	isInit := fn.Name() == "init" && fn.Pkg != nil && fn.Parent() == nil && fn.Signature.Recv() == nil && strings.HasPrefix(fn.Synthetic, "package init")
	if isInit && !isMain(fn, m.prog) && !interpInit(fnPkgPath(fn)) {
		m.inited[fn.Pkg] = true
		return nil
	}
	if m.run != nil && m.run.override != nil && !isInit {
		if h := m.run.override[fn.String()]; h != nil {
			if v := h(m, fn, args); v != nil {
				return v
			}
		}
	}
	if h := m.prog.handler(fn); h != nil && !isInit {
		return h(m, fn, args)
	}
	if fn.Blocks == nil {
		return unsup("no body: %s", fn.String())
	}
	path := fnPkgPath(fn)
	main := isMain(fn, m.prog)
	if !main && !interpretable(path) && !(fn.Synthetic != "" && fn.Object() == nil) && !strings.HasPrefix(fn.Synthetic, "wrapper") && !strings.HasPrefix(fn.Synthetic, "bound") && !strings.HasPrefix(fn.Synthetic, "thunk") {
		// plain value constructors of the gnark packages may be interpreted
		return unsup("unmodelled library function %s", fn.String())
	}
	if isInit {
		if m.inited[fn.Pkg] && m.run != nil && m.run.initing[fn.Pkg] {
			return nil
		}
		if !main && !interpInit(path) {
			m.inited[fn.Pkg] = true
			return nil
		}
		if m.run != nil {
			if m.run.initing == nil {
				m.run.initing = map[*ssa.Package]bool{}
			}
			m.run.initing[fn.Pkg] = true
		}
		m.inited[fn.Pkg] = true
	}
	m.depth++
	if m.depth > 400 {
		panic(unsupported{"call depth"})
	}
	defer func() { m.depth-- }()
	if main {
		m.prog.encoded[fn.RelString(nil)] = true
	}
	fi := m.info(fn)
	fr := &frame{m: m, fn: fn, info: fi, env: make([]Value, fi.n)}
	for i, p := range fn.Params {
		fr.env[fi.slot[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[fi.slot[p]] = env[i]
	}
	step := m.run != nil && m.run.steps != nil && main && fn.Parent() == nil
	if step {
		m.run.steps.enter(fn)
	}
	fr.block = fn.Blocks[0]
	fr.exec()
	if step {
		fr.result = m.run.steps.leave(m, fn, fr.result)
	}
	return fr.result
}

func (f *frame) exec() {
	defer func() {
		if f.block == nil {
			return // normal return
		}
		x := recover()
		if x == nil {
			return
		}
		tp, ok := x.(targetPanic)
		if !ok {
			panic(x)
		}
		f.panicking = true
		f.panicVal = tp
		f.runDefers()
		if f.panicking {
			panic(f.panicVal)
		}
		// recovered
		f.block = f.fn.Recover
		if f.block == nil {
			f.result = f.m.zeroResults(f.fn.Signature)
			return
		}
		f.runBlocks()
	}()
	f.runBlocks()
}

func (m *Machine) zeroResults(s *types.Signature) Value {
	switch s.Results().Len() {
	case 0:
		return nil
	case 1:
		return m.zero(s.Results().At(0).Type())
	}
	var t Tuple
	for i := 0; i < s.Results().Len(); i++ {
		t = append(t, m.zero(s.Results().At(i).Type()))
	}
	return t
}

func (f *frame) runDefers() {
	f.m.deferring = append(f.m.deferring, f)
	defer func() { f.m.deferring = f.m.deferring[:len(f.m.deferring)-1] }()
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		func() {
			defer func() {
				if x := recover(); x != nil {
					if tp, ok := x.(targetPanic); ok {
						f.panicking = true
						f.panicVal = tp
						return
					}
					panic(x)
				}
			}()
			d()
		}()
	}
}

func (f *frame) runBlocks() {
	for f.block != nil {
		b := f.block
		if f.m.blocks != nil && !f.m.blocks[b] {
			f.m.blocks[b] = true
		}
		// phis first, in parallel
		var i int
		for i = 0; i < len(b.Instrs); i++ {
			if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
				break
			}
		}
		if i > 0 {
			vals := make([]Value, i)
			for j := 0; j < i; j++ {
				phi := b.Instrs[j].(*ssa.Phi)
				for k, p := range b.Preds {
					if p == f.prev {
						vals[j] = f.get(phi.Edges[k])
						break
					}
				}
			}
			for j := 0; j < i; j++ {
				f.set(b.Instrs[j].(*ssa.Phi), vals[j])
			}
		}
		next := (*ssa.BasicBlock)(nil)
		ret := false
		for ; i < len(b.Instrs); i++ {
			f.m.steps++
			if f.m.steps > f.m.limit {
				panic(pathAbort{"step bound"})
			}
			if f.m.steps&0xffff == 0 && !engineDeadline.IsZero() && time.Now().After(engineDeadline) {
				unsup("time limit")
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.If:
				c := f.m.decide(f.get(in.Cond), f.fn, in)
				if c {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					f.result = f.get(in.Results[0])
				default:
					t := make(Tuple, len(in.Results))
					for k, r := range in.Results {
						t[k] = f.get(r)
					}
					f.result = t
				}
				ret = true
			case *ssa.Panic:
				panic(targetPanic{f.get(in.X)})
			default:
				f.instr(in)
			}
		}
		f.prev = b
		if ret {
			f.block = nil
			return
		}
		f.block = next
	}
}

func (m *Machine) goPanic(msg string) {
	panic(targetPanic{Iface{t: types.Typ[types.String], v: msg}})
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	}
	return v
}

func storeTo(p Ptr, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			for i := range v {
				storeTo(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeTo(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

func (m *Machine) deref(p Value) Ptr {
	q, ok := p.(Ptr)
	if !ok {
		unsup("dereference of %T", p)
	}
	if q == nil {
		m.goPanic("nil pointer dereference")
	}
	return q
}

func (f *frame) instr(in ssa.Instruction) {
	m := f.m
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		f.set(in, f.unop(in))
	case *ssa.BinOp:
		f.set(in, m.binop(in.Op, in.X.Type(), in.Y.Type(), f.get(in.X), f.get(in.Y)))
	case *ssa.Call:
		f.set(in, f.doCall(&in.Call))
	case *ssa.ChangeInterface:
		f.set(in, f.get(in.X))
	case *ssa.ChangeType:
		f.set(in, f.get(in.X))
	case *ssa.Convert:
		f.set(in, m.convert(in.Type(), in.X.Type(), f.get(in.X)))
	case *ssa.MultiConvert:
		f.set(in, m.convert(in.Type(), in.X.Type(), f.get(in.X)))
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.MakeInterface:
		f.set(in, Iface{t: in.X.Type(), v: copyVal(f.get(in.X))})
	case *ssa.Extract:
		t, ok := f.get(in.Tuple).(Tuple)
		if !ok {
			unsup("extract from %T", f.get(in.Tuple))
		}
		f.set(in, t[in.Index])
	case *ssa.Slice:
		f.set(in, f.slice(in))
	case *ssa.Store:
		storeTo(m.deref(f.get(in.Addr)), f.get(in.Val))
	case *ssa.Alloc:
		p := new(Value)
		*p = m.zero(in.Type().Underlying().(*types.Pointer).Elem())
		f.set(in, p)
	case *ssa.MakeSlice:
		n, c := m.concInt(f.get(in.Len)), m.concInt(f.get(in.Cap))
		if n < 0 || c < n {
			m.goPanic("makeslice: len out of range")
		}
		if c > 1<<22 {
			unsup("huge slice")
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		s := make([]Value, c)
		for i := range s {
			s[i] = m.zero(el)
		}
		f.set(in, s[:n])
	case *ssa.MakeMap:
		f.set(in, &MapV{m: map[interface{}]Value{}})
	case *ssa.MapUpdate:
		mv, ok := f.get(in.Map).(*MapV)
		if !ok || mv == nil {
			m.goPanic("assignment to entry in nil map")
		}
		k := f.get(in.Key)
		kk := m.mapFind(mv, k)
		if _, ok := mv.m[kk]; !ok {
			mv.keys = append(mv.keys, k)
		}
		mv.m[kk] = f.get(in.Value)
	case *ssa.Lookup:
		f.set(in, f.lookup(in))
	case *ssa.FieldAddr:
		p := m.deref(f.get(in.X))
		s, ok := (*p).(Struct)
		if !ok {
			unsup("field address of %T (%s)", *p, in.X.Type())
		}
		f.set(in, &s[in.Field])
	case *ssa.Field:
		s, ok := f.get(in.X).(Struct)
		if !ok {
			unsup("field of %T", f.get(in.X))
		}
		f.set(in, s[in.Field])
	case *ssa.IndexAddr:
		x := f.get(in.X)
		i := m.concInt(f.get(in.Index))
		switch x := x.(type) {
		case []Value:
			if i < 0 || i >= int64(len(x)) {
				m.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(x)))
			}
			f.set(in, &x[i])
		case Ptr:
			a, ok := (*m.deref(x)).(Array)
			if !ok {
				unsup("index of %T", *x)
			}
			if i < 0 || i >= int64(len(a)) {
				m.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
			}
			f.set(in, &a[i])
		default:
			unsup("indexaddr of %T", x)
		}
	case *ssa.Index:
		i := m.concInt(f.get(in.Index))
		switch x := f.get(in.X).(type) {
		case Array:
			if i < 0 || i >= int64(len(x)) {
				m.goPanic("index out of range")
			}
			f.set(in, x[i])
		default:
			f.set(in, m.strIndex(x, i))
		}
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range in.Bindings {
			b = append(b, f.get(v))
		}
		f.set(in, &Closure{in.Fn.(*ssa.Function), b})
	case *ssa.TypeAssert:
		f.set(in, f.typeAssert(in))
	case *ssa.Defer:
		fn, args := f.prepCall(&in.Call)
		f.defers = append(f.defers, func() { m.call(fn, args, f) })
	case *ssa.RunDefers:
		f.runDefers()
		if f.panicking {
			panic(f.panicVal)
		}
	case *ssa.Range:
		f.set(in, m.mkRange(f.get(in.X)))
	case *ssa.Next:
		f.set(in, m.next(f.get(in.Iter), in))
	default:
		unsup("instruction %T", in)
	}
}

type rangeIter struct {
	str  []Value
	m    *MapV
	i    int
	keys []Value
}

func (m *Machine) mkRange(x Value) Value {
	switch x := x.(type) {
	case string:
		it := &rangeIter{}
		for _, r := range []byte(x) {
			if r >= 0x80 {
				unsup("range over non-ascii string")
			}
			it.str = append(it.str, uint64(r))
		}
		return it
	case *SymStr:
		return &rangeIter{str: x.ch}
	case *MapV:
		if x == nil {
			return &rangeIter{m: &MapV{}}
		}
		return &rangeIter{m: x, keys: append([]Value(nil), x.keys...)}
	}
	return unsup("range over %T", x)
}

func (m *Machine) next(x Value, in *ssa.Next) Value {
	it := x.(*rangeIter)
	if it.m != nil {
		for it.i < len(it.keys) {
			k := it.keys[it.i]
			it.i++
			if v, ok := it.m.m[m.mapKey(k)]; ok {
				return Tuple{true, k, v}
			}
		}
		return Tuple{false, nil, nil}
	}
	if it.i >= len(it.str) {
		return Tuple{false, uint64(0), uint64(0)}
	}
	it.i++
	return Tuple{true, uint64(it.i - 1), it.str[it.i-1]}
}

func (m *Machine) mapKey(k Value) interface{} {
	switch k := k.(type) {
	case string, uint64, bool, Ptr:
		return k
	case Iface:
		return fmt.Sprintf("%v|%v", k.t, m.mapKey(k.v))
	case Array:
		s := "["
		for _, e := range k {
			s += fmt.Sprint(m.mapKey(e)) + ","
		}
		return s
	case Struct:
		s := "{"
		for _, e := range k {
			s += fmt.Sprint(m.mapKey(e)) + ","
		}
		return s
	}
	if symbolic(k) {
		return "sym " + snapshot(k, false, nil)
	}
	return unsup("map key %T", k)
}

// symbolic values are map keys whose equality is for the solver to decide.
func symbolic(k Value) bool {
	switch k := k.(type) {
	case *Term, *FmtStr, *SymStr, FieldEl:
		return true
	case Iface:
		return symbolic(k.v)
	case Array:
		for _, e := range k {
			if symbolic(e) {
				return true
			}
		}
	case Struct:
		for _, e := range k {
			if symbolic(e) {
				return true
			}
		}
	}
	return false
}

// mapFind is the key under which k's entry is stored, or would be.
func (m *Machine) mapFind(mv *MapV, k Value) interface{} {
	kk := m.mapKey(k)
	if _, ok := mv.m[kk]; ok {
		return kk
	}
	sym := symbolic(k)
	for _, o := range mv.keys {
		ok := m.mapKey(o)
		if _, live := mv.m[ok]; !live || !sym && !symbolic(o) {
			continue
		}
		if m.decide(m.equal(k, o), nil, nil) {
			return ok
		}
	}
	return kk
}

func (f *frame) lookup(in *ssa.Lookup) Value {
	m := f.m
	switch x := f.get(in.X).(type) {
	case *MapV:
		el := in.X.Type().Underlying().(*types.Map).Elem()
		var v Value
		ok := false
		if x != nil {
			v, ok = x.m[m.mapFind(x, f.get(in.Index))]
		}
		if !ok {
			v = m.zero(el)
		}
		if in.CommaOk {
			return Tuple{copyVal(v), ok}
		}
		return copyVal(v)
	default:
		return m.strIndex(x, m.concInt(f.get(in.Index)))
	}
}

func (m *Machine) strIndex(x Value, i int64) Value {
	switch x := x.(type) {
	case string:
		if i < 0 || i >= int64(len(x)) {
			m.goPanic("index out of range")
		}
		return uint64(x[i])
	case *SymStr:
		if i < 0 || i >= int64(len(x.ch)) {
			m.goPanic("index out of range")
		}
		return x.ch[i]
	}
	return unsup("index of %T", x)
}

func (f *frame) prepCall(c *ssa.CallCommon) (Value, []Value) {
	m := f.m
	var args []Value
	if c.IsInvoke() {
		recv, ok := f.get(c.Value).(Iface)
		if !ok {
			unsup("invoke on %T", f.get(c.Value))
		}
		for _, a := range c.Args {
			args = append(args, f.get(a))
		}
		if recv.t == nil {
			m.goPanic("nil interface method call " + c.Method.Name())
		}
		if mo, ok := recv.v.(ModelObj); ok {
			name := c.Method.Name()
			return &BoundNative{name, func(m *Machine, a []Value) Value { return mo.Invoke(m, name, a) }}, args
		}
		fn := m.prog.ssa.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			unsup("method %s of %s", c.Method.Name(), recv.t)
		}
		return fn, append([]Value{recv.v}, args...)
	}
	for _, a := range c.Args {
		args = append(args, f.get(a))
	}
	return f.get(c.Value), args
}

func (f *frame) doCall(c *ssa.CallCommon) Value {
	fn, args := f.prepCall(c)
	return f.m.call(fn, args, f)
}

func (f *frame) unop(in *ssa.UnOp) Value {
	m := f.m
	x := f.get(in.X)
	switch in.Op {
	case token.MUL:
		return copyVal(*m.deref(x))
	case token.NOT:
		if t, ok := x.(*Term); ok {
			return Not(t)
		}
		return !x.(bool)
	case token.SUB:
		switch x := x.(type) {
		case uint64:
			sz, _ := intSize(in.Type())
			return trunc(-x, sz)
		case float64:
			return -x
		case *Term:
			return m.wrap(Neg(x), in.Type())
		}
	case token.XOR:
		switch x := x.(type) {
		case uint64:
			sz, _ := intSize(in.Type())
			return trunc(^x, sz)
		case *Term:
			return m.wrap(Sub(CI(-1), x), in.Type())
		}
	}
	return unsup("unop %s %T", in.Op, x)
}

// intSize returns bits and signedness of an integer type.
func intSize(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 64, false
}

func trunc(x uint64, sz int) uint64 {
	if sz >= 64 {
		return x
	}
	return x & (1<<uint(sz) - 1)
}
func sext(x uint64, sz int) int64 {
	if sz >= 64 {
		return int64(x)
	}
	return int64(x<<(64-uint(sz))) >> (64 - uint(sz))
}

// wrap reduces a mathematical integer term to a machine type.
func (m *Machine) wrap(t *Term, ty types.Type) Value {
	sz, signed := intSize(ty)
	if signed {
		lo := new(big.Int).Neg(pow2(sz - 1))
		hi := new(big.Int).Sub(pow2(sz-1), big1)
		if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
			return m.conc(t, ty)
		}
		r := Sub(Mod(Add(t, C(pow2(sz-1))), pow2(sz)), C(pow2(sz-1)))
		return m.conc(r, ty)
	}
	return m.conc(intern(Mod(t, pow2(sz))), ty)
}

// conc turns constant terms into concrete machine values.
func (m *Machine) conc(t *Term, ty types.Type) Value {
	if t.op == OConst {
		sz, _ := intSize(ty)
		v := new(big.Int).Mod(t.k, two64)
		return trunc(v.Uint64(), sz)
	}
	return t
}

// asTerm reads a machine integer as a mathematical integer term.
func asTerm(x Value, ty types.Type) *Term {
	switch x := x.(type) {
	case *Term:
		return x
	case uint64:
		sz, signed := intSize(ty)
		if signed {
			return CI(sext(x, sz))
		}
		return C(new(big.Int).SetUint64(x))
	}
	unsup("integer value %T", x)
	return nil
}

// concInt requires a concrete int (forking on small symbolic ranges is not supported).
func (m *Machine) concInt(x Value) int64 {
	switch x := x.(type) {
	case uint64:
		return int64(x)
	case *Term:
		t := m.run.sub.apply(x)
		if t.op == OConst && t.k.IsInt64() {
			return t.k.Int64()
		}
		return m.forkInt(t)
	}
	unsup("index %T", x)
	return 0
}

func (m *Machine) binop(op token.Token, tx, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL, token.NEQ:
		r := m.equal(x, y)
		if op == token.NEQ {
			if t, ok := r.(*Term); ok {
				return normBool(Not(t))
			}
			return !r.(bool)
		}
		if t, ok := r.(*Term); ok {
			return normBool(t)
		}
		return r
	}
	switch xv := x.(type) {
	case string:
		if yv, ok := y.(string); ok {
			switch op {
			case token.ADD:
				return xv + yv
			case token.LSS:
				return xv < yv
			case token.LEQ:
				return xv <= yv
			case token.GTR:
				return xv > yv
			case token.GEQ:
				return xv >= yv
			}
		}
		if op == token.ADD {
			return strCat(x, y)
		}
	case *SymStr, *FmtStr:
		if op == token.ADD {
			return strCat(x, y)
		}
	case float64:
		yv, ok := y.(float64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return xv + yv
		case token.SUB:
			return xv - yv
		case token.MUL:
			return xv * yv
		case token.QUO:
			return xv / yv
		case token.LSS:
			return xv < yv
		case token.LEQ:
			return xv <= yv
		case token.GTR:
			return xv > yv
		case token.GEQ:
			return xv >= yv
		}
	case bool:
		return unsup("bool binop %s", op)
	}
	sz, signed := intSize(tx)
	xi, ok1 := x.(uint64)
	yi, ok2 := y.(uint64)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return trunc(xi+yi, sz)
		case token.SUB:
			return trunc(xi-yi, sz)
		case token.MUL:
			return trunc(xi*yi, sz)
		case token.QUO, token.REM:
			if yi == 0 {
				m.goPanic("integer divide by zero")
			}
			if signed {
				a, b := sext(xi, sz), sext(yi, sz)
				if op == token.QUO {
					return trunc(uint64(a/b), sz)
				}
				return trunc(uint64(a%b), sz)
			}
			if op == token.QUO {
				return xi / yi
			}
			return xi % yi
		case token.AND:
			return xi & yi
		case token.OR:
			return xi | yi
		case token.XOR:
			return xi ^ yi
		case token.AND_NOT:
			return xi &^ yi
		case token.SHL, token.SHR:
			ysz, ys := intSize(ty)
			if ys && sext(yi, ysz) < 0 {
				m.goPanic("negative shift amount")
			}
			if op == token.SHL {
				if yi >= 64 {
					return uint64(0)
				}
				return trunc(xi<<yi, sz)
			}
			if signed {
				if yi >= 64 {
					yi = 63
				}
				return trunc(uint64(sext(xi, sz)>>yi), sz)
			}
			if yi >= 64 {
				return uint64(0)
			}
			return xi >> yi
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			var c int
			if signed {
				a, b := sext(xi, sz), sext(yi, sz)
				c = cmpInt(a < b, a > b)
			} else {
				c = cmpInt(xi < yi, xi > yi)
			}
			switch op {
			case token.LSS:
				return c < 0
			case token.LEQ:
				return c <= 0
			case token.GTR:
				return c > 0
			}
			return c >= 0
		}
	}
	// symbolic integers
	a, b := asTerm(x, tx), asTerm(y, ty)
	switch op {
	case token.ADD:
		return m.wrap(Add(a, b), tx)
	case token.SUB:
		return m.wrap(Sub(a, b), tx)
	case token.MUL:
		return m.wrap(Mul(a, b), tx)
	case token.LSS:
		return normBool(Lt(a, b))
	case token.LEQ:
		return normBool(Le(a, b))
	case token.GTR:
		return normBool(Lt(b, a))
	case token.GEQ:
		return normBool(Le(b, a))
	case token.QUO:
		if b.op == OConst && b.k.Sign() > 0 && a.lo != nil && a.lo.Sign() >= 0 {
			return m.conc(Div(a, b.k), tx)
		}
	case token.REM:
		if b.op == OConst && b.k.Sign() > 0 && a.lo != nil && a.lo.Sign() >= 0 {
			return m.conc(intern(Mod(a, b.k)), tx)
		}
	case token.SHL:
		if b.op == OConst && b.k.IsInt64() && b.k.Int64() < 64 {
			return m.wrap(Mul(a, C(pow2(int(b.k.Int64())))), tx)
		}
	case token.SHR:
		if b.op == OConst && b.k.IsInt64() && b.k.Int64() < 64 && a.lo != nil && a.lo.Sign() >= 0 {
			return m.conc(Div(a, pow2(int(b.k.Int64()))), tx)
		}
	case token.AND:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k.Sign() >= 0 && a.lo != nil && a.lo.Sign() >= 0 {
			return m.conc(maskBits(a, b.k), tx)
		}
	case token.OR, token.XOR:
		if r := disjointBits(a, b); r != nil {
			return m.conc(r, tx)
		}
	}
	return unsup("symbolic %s on %s", op, tx)
}

func maskBits(a *Term, mask *big.Int) *Term {
	var parts []*Term
	var ws []int
	n := mask.BitLen()
	for i := 0; i < n; {
		j := i
		bit := mask.Bit(i)
		for j < n && mask.Bit(j) == bit {
			j++
		}
		if bit == 1 {
			parts = append(parts, Ext(a, i, j-i))
		} else {
			parts = append(parts, CI(0))
		}
		ws = append(ws, j-i)
		i = j
	}
	return Cat(parts, ws)
}

// bitSpan gives a [lo,hi) span containing all possibly-set bits.
func bitSpan(t *Term) (int, int, bool) {
	if t.lo == nil || t.lo.Sign() < 0 || t.hi == nil {
		return 0, 0, false
	}
	hi := t.hi.BitLen()
	lo := 0
	switch t.op {
	case OConst:
		if t.k.Sign() == 0 {
			return 0, 0, true
		}
		lo = int(t.k.TrailingZeroBits())
	case OMul:
		if l := t.args[len(t.args)-1]; l.op == OConst {
			lo = int(l.k.TrailingZeroBits())
		}
	case OCat:
		for i, p := range t.args {
			if p.op == OConst && p.k.Sign() == 0 {
				lo += t.ws[i]
			} else {
				break
			}
		}
	}
	return lo, hi, true
}

func disjointBits(a, b *Term) *Term {
	al, ah, ok1 := bitSpan(a)
	bl, bh, ok2 := bitSpan(b)
	if !ok1 || !ok2 {
		return nil
	}
	if ah <= bl {
		a, b = b, a
		al, ah, bl, bh = bl, bh, al, ah
	}
	if bh <= al { // b below a
		low := b
		return Cat([]*Term{low, Ext(a, al, ah-al)}, []int{al, ah - al})
	}
	return nil
}

func normBool(t *Term) Value {
	if t.op == OBool {
		return t.n != 0
	}
	return t
}

func cmpInt(lt, gt bool) int {
	if lt {
		return -1
	}
	if gt {
		return 1
	}
	return 0
}

// equal implements ==; result bool or *Term.
func (m *Machine) equal(x, y Value) Value {
	switch a := x.(type) {
	case bool:
		switch b := y.(type) {
		case bool:
			return a == b
		case *Term:
			return Eq(B(a), b)
		}
	case uint64:
		switch b := y.(type) {
		case uint64:
			return a == b
		case *Term:
			return Eq(C(new(big.Int).SetUint64(a)), b)
		}
	case float64:
		return a == y.(float64)
	case *Term:
		switch b := y.(type) {
		case *Term:
			return Eq(a, b)
		case uint64:
			if a.lo != nil && a.lo.Sign() < 0 {
				return Eq(a, CI(int64(b)))
			}
			return Eq(a, C(new(big.Int).SetUint64(b)))
		case bool:
			return Eq(a, B(b))
		}
	case string, *SymStr, *FmtStr:
		return m.strEqual(x, y)
	case Ptr:
		if b, ok := y.(Ptr); ok {
			return a == b
		}
		return a == nil && y == nil
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return a.t == nil && y == nil
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if !types.Identical(a.t, b.t) {
			return false
		}
		return m.equal(a.v, b.v)
	case Struct:
		b := y.(Struct)
		r := Value(true)
		for i := range a {
			r = m.andV(r, m.equal(a[i], b[i]))
		}
		return r
	case Array:
		b := y.(Array)
		r := Value(true)
		for i := range a {
			r = m.andV(r, m.equal(a[i], b[i]))
		}
		return r
	case FieldEl:
		b := y.(FieldEl)
		return normBool(Eq(a.t, b.t))
	case []Value:
		if y == nil {
			return a == nil
		}
		if b, ok := y.([]Value); ok && (a == nil || b == nil) {
			return a == nil && b == nil
		}
	case *MapV:
		b, _ := y.(*MapV)
		return a == b
	case *ssa.Function:
		b, _ := y.(*ssa.Function)
		return a == b
	case *Closure:
		b, _ := y.(*Closure)
		return a == b
	case nil:
		switch b := y.(type) {
		case nil:
			return true
		case []Value:
			return b == nil
		case Ptr:
			return b == nil
		case Iface:
			return b.t == nil
		case *ssa.Function:
			return b == nil
		}
		return false
	case ModelObj:
		return x == y
	}
	return unsup("comparison of %T and %T", x, y)
}

func (m *Machine) andV(a, b Value) Value {
	ta, tb := toBoolTerm(a), toBoolTerm(b)
	return normBool(And(ta, tb))
}

func toBoolTerm(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return B(v)
	case *Term:
		return v
	}
	unsup("bool %T", v)
	return nil
}

func (m *Machine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	if v, ok := m.prog.consts[c]; ok {
		return v
	}
	v := m.constVal1(c)
	m.prog.consts[c] = v
	return v
}

func (m *Machine) constVal1(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			sz, _ := intSize(t)
			if i, ok := constant.Int64Val(v); ok {
				return trunc(uint64(i), sz)
			}
			u, _ := constant.Uint64Val(v)
			return trunc(u, sz)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f
		}
	}
	return unsup("constant of type %s", c.Type())
}

func namedPath(t types.Type) string {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func (m *Machine) zero(t types.Type) Value {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if z := m.opaqueZero(n); z != nil {
			return z
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return uint64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UnsafePointer:
			return Ptr(nil)
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() > 1<<20 {
			unsup("huge array")
		}
		a := make(Array, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Chan:
		return nil
	case *types.Tuple:
		var tp Tuple
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, m.zero(u.At(i).Type()))
		}
		return tp
	case *types.TypeParam:
		return unsup("zero of type parameter")
	}
	return unsup("zero of %s", t)
}

func (m *Machine) convert(to, from types.Type, x Value) Value {
	ut, uf := to.Underlying(), from.Underlying()
	switch d := ut.(type) {
	case *types.Pointer:
		if _, ok := uf.(*types.Pointer); ok {
			return x
		}
	case *types.Slice:
		switch v := x.(type) {
		case string:
			if intIs(d.Elem(), types.Uint8) {
				out := make([]Value, len(v))
				for i := range out {
					out[i] = uint64(v[i])
				}
				return out
			}
			var out []Value
			for _, r := range v {
				out = append(out, uint64(r))
			}
			return out
		case *SymStr:
			return append([]Value(nil), v.ch...)
		case []Value:
			return v
		}
	case *types.Basic:
		if d.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case []Value:
				return mkStr(append([]Value(nil), v...))
			case uint64:
				return string(rune(v))
			case string, *SymStr, *FmtStr:
				return v
			}
		}
		if d.Info()&types.IsInteger != 0 {
			switch v := x.(type) {
			case uint64:
				fs, fsg := intSize(from)
				ts, _ := intSize(to)
				if fsg {
					return trunc(uint64(sext(v, fs)), ts)
				}
				return trunc(v, ts)
			case *Term:
				return m.wrap(v, to)
			case float64:
				return uint64(int64(v))
			case Ptr:
				unsup("pointer to integer")
			}
		}
		if d.Info()&types.IsFloat != 0 {
			switch v := x.(type) {
			case uint64:
				fs, fsg := intSize(from)
				if fsg {
					return float64(sext(v, fs))
				}
				return float64(v)
			case float64:
				return v
			}
		}
	}
	return unsup("convert %s to %s (%T)", from, to, x)
}

func intIs(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func (f *frame) slice(in *ssa.Slice) Value {
	m := f.m
	x := f.get(in.X)
	var s []Value
	isStr := false
	switch v := x.(type) {
	case []Value:
		s = v
	case Ptr:
		a, ok := (*m.deref(v)).(Array)
		if !ok {
			unsup("slice of %T", *v)
		}
		s = []Value(a)
	case string, *SymStr:
		isStr = true
		s = strChars(x)
	default:
		unsup("slice of %T", x)
	}
	lo, hi, mx := int64(0), int64(len(s)), int64(cap(s))
	if in.Low != nil {
		lo = m.concInt(f.get(in.Low))
	}
	if in.High != nil {
		hi = m.concInt(f.get(in.High))
	}
	if in.Max != nil {
		mx = m.concInt(f.get(in.Max))
	}
	if isStr {
		if lo < 0 || hi < lo || hi > int64(len(s)) {
			m.goPanic("slice bounds out of range")
		}
		if v, ok := x.(string); ok {
			return v[lo:hi]
		}
		return mkStr(s[lo:hi])
	}
	if lo < 0 || hi < lo || mx < hi || mx > int64(cap(s)) {
		m.goPanic("slice bounds out of range")
	}
	return s[lo:hi:mx]
}

func (f *frame) typeAssert(in *ssa.TypeAssert) Value {
	m := f.m
	x, ok := f.get(in.X).(Iface)
	if !ok {
		unsup("type assertion on %T", f.get(in.X))
	}
	good := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil {
			if _, ok := x.v.(ModelObj); ok {
				good = modelImplements(x.v, in.AssertedType)
			} else {
				good = types.Implements(x.t, it)
			}
		}
		v = x
		if !good {
			v = Iface{}
		}
	} else {
		good = x.t != nil && types.Identical(x.t, in.AssertedType)
		if good {
			v = copyVal(x.v)
		} else {
			v = m.zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{v, good}
	}
	if !good {
		if m.run != nil && m.run.onBadAssert != nil {
			m.run.onBadAssert(f.fn, in, x)
		}
		m.goPanic(fmt.Sprintf("interface conversion: %v is not %v", x.t, in.AssertedType))
	}
	return v
}

func (m *Machine) builtin(b *ssa.Builtin, args []Value, caller *frame) Value {
	switch b.Name() {
	case "append":
		s, _ := args[0].([]Value)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch a := args[1].(type) {
		case []Value:
			add = a
		case string, *SymStr:
			add = strChars(a)
		default:
			unsup("append %T", a)
		}
		for _, v := range add {
			s = append(s, copyVal(v))
		}
		return s
	case "copy":
		d, _ := args[0].([]Value)
		var s []Value
		switch a := args[1].(type) {
		case []Value:
			s = a
		case string, *SymStr:
			s = strChars(a)
		}
		n := len(d)
		if len(s) < n {
			n = len(s)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(s[i])
		}
		for i := 0; i < n; i++ {
			storeTo(&d[i], tmp[i])
		}
		return uint64(n)
	case "len", "cap":
		switch a := args[0].(type) {
		case []Value:
			if b.Name() == "cap" {
				return uint64(cap(a))
			}
			return uint64(len(a))
		case string:
			return uint64(len(a))
		case *SymStr:
			return uint64(len(a.ch))
		case *MapV:
			if a == nil {
				return uint64(0)
			}
			return uint64(len(a.m))
		case Array:
			return uint64(len(a))
		case Ptr:
			return uint64(len((*a).(Array)))
		}
		return unsup("len of %T", args[0])
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// recover is called from a deferred function; find the panicking frame
		return m.doRecover(caller)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(uint64)
			y, ok2 := a.(uint64)
			if !ok1 || !ok2 {
				unsup("min/max")
			}
			if (b.Name() == "min") == (int64(y) < int64(x)) {
				r = y
			}
		}
		return r
	case "delete":
		mv, _ := args[0].(*MapV)
		if mv != nil {
			delete(mv.m, m.mapFind(mv, args[1]))
		}
		return nil
	case "clear":
		switch a := args[0].(type) {
		case *MapV:
			a.m = map[interface{}]Value{}
			a.keys = nil
		case []Value:
			unsup("clear slice")
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			m.goPanic("nil receiver")
		}
		return args[0]
	}
	return unsup("builtin %s", b.Name())
}

func (m *Machine) doRecover(caller *frame) Value {
	if n := len(m.deferring); n > 0 {
		f := m.deferring[n-1]
		if f.panicking {
			f.panicking = false
			v := f.panicVal.(targetPanic).v
			if _, ok := v.(Iface); !ok {
				v = Iface{t: types.Typ[types.String], v: v}
			}
			return v
		}
	}
	return Iface{}
}
