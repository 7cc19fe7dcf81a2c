package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Handler func(m *Machine, fn *ssa.Function, args []Value) Value

type Program struct {
	ssa      *ssa.Program
	main     *ssa.Package
	infos    map[*ssa.Function]*funcInfo
	handlers map[*ssa.Function]Handler
	consts   map[*ssa.Const]Value
	encoded  map[string]bool
	bigPtr   types.Type
	errType  types.Type
	modelT   types.Type
	opaqueT  types.Type
	loadTime time.Duration
	loadErr  error
}

const instances = `package main

import (
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
)

func zzVerifMsm(api frontend.API, p []sw_emulated.AffinePoint[emulated.BN254Fp], s []emulated.Element[emulated.BN254Fr], e sw_emulated.AffinePoint[emulated.BN254Fp]) error {
	return VerifyMultiScalarMul[emulated.BN254Fp, emulated.BN254Fr](api, p, s, e)
}

func zzVerifMsmCircuit(api frontend.API, p []sw_emulated.AffinePoint[emulated.BN254Fp], s []emulated.Element[emulated.BN254Fr], e sw_emulated.AffinePoint[emulated.BN254Fp]) error {
	c := &MultiScalarMul[emulated.BN254Fp, emulated.BN254Fr]{Points: p, Scalars: s, Res: e}
	return c.Define(api)
}
`

// LoadProgram loads the package with extra files added; those that do not
// compile against this tree are left out.
func LoadProgram(dir string, extra map[string]string) (*Program, error) {
	t0 := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, BuildFlags: []string{"-tags=purego,math_big_pure_go"}}
	// instances of the generic functions of the package
	cfg.Overlay = map[string][]byte{filepath.Join(dir, "zz_verif_instances.go"): []byte(instances)}
	for n, src := range extra {
		cfg.Overlay[filepath.Join(dir, n)] = []byte(src)
	}
	var pkgs []*packages.Package
	for {
		var err error
		if pkgs, err = packages.Load(cfg, "."); err != nil && len(cfg.Overlay) == 0 {
			return nil, err
		}
		drop, first := 0, err
		for _, p := range pkgs {
			for _, e := range p.Errors {
				if first == nil {
					first = fmt.Errorf("load: %v", e)
				}
				f, _, _ := strings.Cut(e.Pos, ":")
				if _, is := cfg.Overlay[f]; is {
					delete(cfg.Overlay, f)
					drop++
				}
			}
		}
		if first == nil {
			break
		}
		if drop == 0 {
			if len(cfg.Overlay) == 0 {
				return nil, first
			}
			cfg.Overlay = nil
		}
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	if len(ps) == 0 || ps[0] == nil {
		return nil, fmt.Errorf("no package")
	}
	prog.Build()
	p := &Program{ssa: prog, main: ps[0], infos: map[*ssa.Function]*funcInfo{}, handlers: map[*ssa.Function]Handler{},
		consts: map[*ssa.Const]Value{}, encoded: map[string]bool{}}
	for _, q := range prog.AllPackages() {
		switch q.Pkg.Path() {
		case "math/big":
			p.bigPtr = types.NewPointer(q.Type("Int").Type())
		case "errors":
			p.errType = types.NewPointer(q.Type("errorString").Type())
		}
	}
	p.modelT = types.NewNamed(types.NewTypeName(0, nil, "engineModel", nil), types.NewStruct(nil, nil), nil)
	p.opaqueT = types.NewNamed(types.NewTypeName(0, nil, "engineVariable", nil), types.NewStruct(nil, nil), nil)
	p.loadTime = time.Since(t0)
	return p, nil
}

func (p *Program) Type(pkg, name string) types.Type {
	for _, q := range p.ssa.AllPackages() {
		if q.Pkg.Path() == pkg {
			if t := q.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	return nil
}

var reTypeArgs = regexp.MustCompile(`\[[^\[\]]*\]`)

func normName(s string) string {
	for {
		n := reTypeArgs.ReplaceAllString(s, "")
		if n == s {
			return s
		}
		s = n
	}
}

func (p *Program) handler(fn *ssa.Function) Handler {
	if h, ok := p.handlers[fn]; ok {
		return h
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	name := normName(f.String())
	h := models[name]
	if h == nil {
		for _, pm := range prefixModels {
			if strings.HasPrefix(name, pm.prefix) {
				h = pm.h
				break
			}
		}
	}
	p.handlers[fn] = h
	return h
}

// ---------------------------------------------------------------- runs

type Fact struct {
	cond *Term
	kind string // branch, constraint, range, hint, assume
	desc string
}

type Event struct {
	kind string
	lcs  []*LC
	args []*Term
	vals []Value
}

type HintMode int

const (
	Honest HintMode = iota
	Adversarial
)

type HintCall struct {
	fn      Value
	name    string
	inputs  []*Term
	outputs []*Term
}

type Run struct {
	prefix []bool
	taken  []bool
	alts   []*Term // condition at each decision point
	facts  []Fact
	known  map[*Term]bool // atoms known true / false
	sub    *Subst
	events []Event
	mode   HintMode
	hints  []HintCall
	fresh  int
	oblig  []Fact // constraints seen, in order (completeness obligations)
	infeas bool

	initing     map[*ssa.Package]bool
	registered  map[*ssa.Function]bool
	hintFail    bool // fork hints that may fail
	opaqueVars  bool
	faults      []string
	ctorFail    bool
	ctors       int
	watched     *Watched // inputs that must come out as they went in
	steps       *Steps   // fallible steps made to fail, one per path
	onBadAssert func(fn *ssa.Function, in *ssa.TypeAssert, x Iface)
	override    map[string]func(m *Machine, fn *ssa.Function, args []Value) Value
}

func newRun(mode HintMode) *Run {
	return &Run{known: map[*Term]bool{}, sub: newSubst(), mode: mode, registered: map[*ssa.Function]bool{}}
}

func (r *Run) freshVar(name string, lo, hi *big.Int) *Term {
	r.fresh++
	return Var(fmt.Sprintf("%s!%d", name, r.fresh), lo, hi)
}

// lookupKnown decides a condition from recorded facts.
func (r *Run) lookupKnown(c *Term) (bool, bool) {
	switch c.op {
	case OBool:
		return c.n != 0, true
	case ONot:
		v, ok := r.lookupKnown(c.args[0])
		return !v, ok
	case OAnd:
		all := true
		for _, a := range c.args {
			v, ok := r.lookupKnown(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	v, ok := r.known[c]
	return v, ok
}

func (r *Run) learn(c *Term, v bool) {
	switch c.op {
	case ONot:
		r.learn(c.args[0], !v)
		return
	case OAnd:
		if v {
			for _, a := range c.args {
				r.learn(a, true)
			}
		}
	case OEq:
		if v {
			r.tryBind(c.args[0], c.args[1])
		}
	case OLe:
		// t < r (or t <= k < r): t is its own residue
		var t *Term
		if a, b := c.args[0], c.args[1]; v && b.op == OConst && b.k.Cmp(rMod) < 0 {
			t = a
		} else if !v && a.op == OConst && a.k.Cmp(rMod) <= 0 {
			t = b
		}
		if t != nil && t.lo != nil && t.lo.Sign() >= 0 {
			if mt := intern(Mod(t, rMod)); mt.op == OMod && mt.args[0] == t {
				r.sub.bind(mt, t)
			}
		}
	case OBVar:
		if len(c.args) == 0 {
			r.sub.bind(c, B(v))
		}
	}
	r.known[c] = v
}

func (r *Run) tryBind(a, b *Term) {
	cand := func(v, t *Term) bool {
		if v.op != OVar || occurs(v, t) {
			return false
		}
		if v.lo != nil && (t.lo == nil || t.lo.Cmp(v.lo) < 0) {
			r.facts = append(r.facts, Fact{Le(C(v.lo), t), "range", "range of " + v.name})
		}
		if v.hi != nil && (t.hi == nil || t.hi.Cmp(v.hi) > 0) {
			c := Le(t, C(v.hi))
			r.facts = append(r.facts, Fact{c, "range", "range of " + v.name})
			r.learn(c, true)
		}
		r.sub.bind(v, t)
		return true
	}
	if a.op == OVar && b.op == OVar && a.id < b.id {
		a, b = b, a
	}
	// never rewrite the property's own inputs in terms of fresh hint values
	if isFresh(a) && cand(a, b) {
		return
	}
	if isFresh(b) && cand(b, a) {
		return
	}
	if a.op == OVar && (b.op == OConst || b.op == OVar) && cand(a, b) {
		return
	}
	if b.op == OVar && (a.op == OConst || a.op == OVar) && cand(b, a) {
		return
	}
}

func isFresh(t *Term) bool { return t.op == OVar && strings.Contains(t.name, "!") }

func (m *Machine) simp(t *Term) *Term {
	return m.run.sub.apply(t)
}

// decide resolves a branch condition, forking when it is symbolic.
func (m *Machine) decide(c Value, fn *ssa.Function, in ssa.Instruction) bool {
	switch c := c.(type) {
	case bool:
		return c
	case *Term:
		r := m.run
		t := m.simp(c)
		if v, ok := r.lookupKnown(t); ok {
			return v
		}
		i := len(r.taken)
		var v bool
		if i < len(r.prefix) {
			v = r.prefix[i]
		} else {
			v = prefer(t)
		}
		r.taken = append(r.taken, v)
		r.alts = append(r.alts, t)
		cond := t
		if !v {
			cond = Not(t)
		}
		desc := ""
		if fn != nil {
			desc = fn.Name()
		}
		r.facts = append(r.facts, Fact{cond, "branch", desc})
		r.learn(cond, true)
		return v
	}
	unsup("branch on %T", c)
	return false
}

// prefer picks the side explored first.
func prefer(t *Term) bool {
	switch t.op {
	case OEq:
		return false
	case ONot:
		return !prefer(t.args[0])
	case OAnd:
		for _, a := range t.args {
			if !prefer(a) {
				return false
			}
		}
		return true
	}
	return true
}

// forkInt enumerates a small symbolic integer.
func (m *Machine) forkInt(t *Term) int64 {
	if t.lo == nil || t.hi == nil || new(big.Int).Sub(t.hi, t.lo).Cmp(big.NewInt(256)) > 0 {
		unsup("symbolic index %s", t)
	}
	for k := new(big.Int).Set(t.lo); k.Cmp(t.hi) < 0; k.Add(k, big1) {
		if m.decide(normBool(Eq(t, C(new(big.Int).Set(k)))), nil, nil) {
			return k.Int64()
		}
	}
	return t.hi.Int64()
}

// require records a circuit constraint: accepted executions satisfy it.
func (m *Machine) require(c *Term, desc string) {
	r := m.run
	t := m.simp(c)
	r.oblig = append(r.oblig, Fact{t, "constraint", desc})
	if t == trueT {
		return
	}
	if v, ok := r.lookupKnown(t); ok && v {
		return
	}
	if t == falseT {
		panic(pathAbort{"constraint unsatisfiable: " + desc})
	}
	if v, ok := r.lookupKnown(t); ok && !v {
		panic(pathAbort{"constraint contradicts path: " + desc})
	}
	r.facts = append(r.facts, Fact{t, "constraint", desc})
	r.learn(t, true)
}

// assume records an environment assumption.
func (m *Machine) assume(c *Term, desc string) {
	t := m.simp(c)
	if t == trueT {
		return
	}
	if t == falseT {
		panic(pathAbort{"assumption false: " + desc})
	}
	m.run.facts = append(m.run.facts, Fact{t, "assume", desc})
	m.run.learn(t, true)
}

type OutcomeKind int

const (
	Returned OutcomeKind = iota
	Panicked
	Rejected // a constraint cannot be satisfied on this path
	Unsupported
	BoundHit
)

func (k OutcomeKind) String() string {
	return [...]string{"returned", "panicked", "rejected", "unsupported", "bound"}[k]
}

type Outcome struct {
	kind OutcomeKind
	ret  Value
	pan  Value
	why  string
	run  *Run
	m    *Machine
	st   interface{} // driver state
}

type Explorer struct {
	prog      *Program
	mode      HintMode
	maxPaths  int
	limit     int64
	stats     *Stats
	deadline  time.Time
	truncated bool
	setup     func(r *Run)
	visit     func(o *Outcome) bool // false stops the exploration
}

// Explore runs driver over all paths, fewest deviations from the preferred side first.
func (e *Explorer) Explore(driver func(m *Machine) (Value, interface{})) []*Outcome {
	type item struct {
		prefix []bool
		dev    int
	}
	work := []item{{nil, 0}}
	var outs []*Outcome
	max := e.maxPaths
	if max == 0 {
		max = 64
	}
	for len(work) > 0 {
		if len(outs) >= max || (!e.deadline.IsZero() && time.Now().After(e.deadline)) {
			e.truncated = true
			break
		}
		best := 0
		for i := range work {
			if work[i].dev < work[best].dev {
				best = i
			}
		}
		it := work[best]
		work = append(work[:best], work[best+1:]...)
		o := e.one(it.prefix, driver)
		outs = append(outs, o)
		if e.visit != nil && !e.visit(o) {
			break
		}
		for i := len(it.prefix); i < len(o.run.taken); i++ {
			p := append(append([]bool(nil), o.run.taken[:i]...), !o.run.taken[i])
			work = append(work, item{p, it.dev + 1})
		}
	}
	if e.stats != nil {
		for _, o := range outs {
			e.stats.Paths++
			e.stats.Outcomes[o.kind.String()]++
		}
	}
	return outs
}

func (e *Explorer) one(prefix []bool, driver func(m *Machine) (Value, interface{})) (o *Outcome) {
	r := newRun(e.mode)
	r.prefix = prefix
	if e.setup != nil {
		e.setup(r)
	}
	m := &Machine{prog: e.prog, globals: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]bool{}, run: r, limit: e.limit, blocks: map[*ssa.BasicBlock]bool{}}
	if m.limit == 0 {
		m.limit = 400_000_000
	}
	o = &Outcome{run: r, m: m}
	defer func() {
		if e.stats != nil {
			e.stats.Steps += m.steps
			for b := range m.blocks {
				if isMain(b.Parent(), e.prog) {
					e.stats.Blocks[b] = true
				}
			}
			e.stats.States += len(m.blocks)
		}
		if x := recover(); x != nil {
			switch x := x.(type) {
			case targetPanic:
				o.kind, o.pan = Panicked, x.v
				o.why = panicText(x.v)
			case pathAbort:
				if x.why == "step bound" {
					o.kind = BoundHit
				} else {
					o.kind = Rejected
				}
				o.why = x.why
			case unsupported:
				o.kind, o.why = Unsupported, x.why
			default:
				if os.Getenv("VERIF_DEBUG") != "" {
					panic(x)
				}
				o.kind, o.why = Unsupported, fmt.Sprint("engine: ", x)
			}
		}
	}()
	m.initMain()
	o.ret, o.st = driver(m)
	o.kind = Returned
	return
}

func panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		switch s := i.v.(type) {
		case string:
			return s
		case *ErrObj:
			return s.msg
		}
		return fmt.Sprintf("%T", i.v)
	}
	return fmt.Sprint(v)
}

func (m *Machine) initMain() {
	m.ensureInit(m.prog.main)
}

// Fn finds a package-level function or method ("Type.Method") of the target.
func (p *Program) Fn(name string) *ssa.Function {
	if f := p.main.Func(name); f != nil {
		return f
	}
	return nil
}

type Stats struct {
	Paths    int
	States   int
	Steps    int64
	Outcomes map[string]int
	Blocks   map[*ssa.BasicBlock]bool
	Queries  int
	Unsat    int
	Sat      int
	Unknown  int
	SolverMS float64
	Traces   int // concrete runs of the real code compared with the engine
	Lemmas   int
	NFOnly   int
	Solvers  map[string]int
}

func newStats() *Stats {
	return &Stats{Outcomes: map[string]int{}, Blocks: map[*ssa.BasicBlock]bool{}, Solvers: map[string]int{}}
}

func sortedKeys[V any](m map[string]V) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
