package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- properties of every function at once (C29, C31)

// catalog lists the functions the other checks drive.
func (ck *Check) catalog(perKey int, ids ...string) []*Gadget {
	var gs, out []*Gadget
	for _, id := range ids {
		c := *ck
		c.id, c.collect = id, &gs
		propChecks[id](&c)
	}
	n := map[string]int{}
	for _, g := range gs {
		k := g.key
		if i := strings.IndexAny(k, "/^ "); i > 0 {
			k = k[:i]
		}
		if n[k]++; n[k] <= perKey {
			out = append(out, g)
		}
	}
	return out
}

// ---- inputs come out as they went in

type watchedCell struct {
	p Ptr
	t *Term
}

type watchedSlice struct {
	what string
	full []Value // with the spare capacity behind the slice
	was  []string
	old  []*Term // values of circuit variables
}

// Watched remembers what a run was given.
type Watched struct {
	cells  []watchedCell
	slices []watchedSlice
	global map[*ssa.Global]string
}

// mayWrite are the buffers a function is there to update.
var mayWrite = regexp.MustCompile(`^(ecc_mul|ecc_mul_add|CalcVerifyCircuitLagrange|GetChallengesShPlonkCircuit|SqueezeChallenge)'s argument (input|buf|absorbing)$`)

// watch remembers a slice and puts guard values into the capacity behind it.
func (m *Machine) watch(what string, v Value) Value {
	w := m.run.watched
	s, ok := v.([]Value)
	if w == nil || !ok || len(s) == 0 || mayWrite.MatchString(what) {
		return v
	}
	full := append(make([]Value, 0, len(s)+3), s...)
	for i := 0; i < 3; i++ {
		if _, isVar := s[0].(Iface); isVar {
			full = append(full, m.bigVar(CI(int64(7700+i))))
		} else {
			full = append(full, copyVal(s[0]))
		}
	}
	ws := watchedSlice{what: what, full: full}
	for _, x := range full {
		ws.was = append(ws.was, snapshot(x, false, nil))
		ws.old = append(ws.old, m.asTerm(x))
	}
	w.slices = append(w.slices, ws)
	return full[:len(s)]
}

// asTerm is the number held by a circuit variable, if it is one.
func (m *Machine) asTerm(v Value) *Term {
	if i, ok := v.(Iface); ok {
		if t, ok := m.varTerm(i); ok && t != nil {
			return intern(t)
		}
	}
	return nil
}

// snapshot renders a value; deep also what it points to.
func snapshot(v Value, deep bool, seen map[Ptr]bool) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case *Term:
		return fmt.Sprintf("t%d", v.id)
	case BigInt:
		if v.t == nil {
			return "big"
		}
		return fmt.Sprintf("big%d", intern(v.t).id)
	case Iface:
		return fmt.Sprintf("%v:", v.t) + snapshot(v.v, deep, seen)
	case Ptr:
		if v == nil {
			return "nil"
		}
		if !deep || seen[v] {
			return fmt.Sprintf("%p", v)
		}
		seen[v] = true
		return fmt.Sprintf("%p->", v) + snapshot(*v, deep, seen)
	case Struct:
		return snapshotAll([]Value(v), deep, seen)
	case Array:
		return snapshotAll([]Value(v), deep, seen)
	case []Value:
		return snapshotAll(v, deep, seen)
	case string, bool, int64, uint64, float64:
		return fmt.Sprint(v)
	case *FmtStr:
		return fmt.Sprintf("text%d/%d", intern(v.t).id, v.base)
	case *SymStr:
		return "chars" + snapshotAll(v.ch, deep, seen)
	case FieldEl:
		return fmt.Sprintf("el%d", intern(v.t).id)
	case *MapV:
		if v == nil {
			return "nil"
		}
		if !deep {
			return fmt.Sprintf("%p", v)
		}
		var sb strings.Builder
		for _, k := range v.keys {
			fmt.Fprintf(&sb, "%s:", snapshot(k, false, nil))
		}
		var vs []string
		for k, x := range v.m {
			vs = append(vs, fmt.Sprint(k)+"="+snapshot(x, deep, seen))
		}
		sort.Strings(vs)
		return "map{" + sb.String() + strings.Join(vs, ",") + "}"
	}
	return fmt.Sprintf("%T", v)
}

func snapshotAll(vs []Value, deep bool, seen map[Ptr]bool) string {
	var sb strings.Builder
	sb.WriteString("[")
	for _, x := range vs {
		sb.WriteString(snapshot(x, deep, seen))
		sb.WriteString(",")
	}
	return sb.String() + "]"
}

func (m *Machine) globalState() map[*ssa.Global]string {
	out := map[*ssa.Global]string{}
	for _, mem := range m.prog.main.Members {
		if g, ok := mem.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
			out[g] = snapshot(*m.global(g), true, map[Ptr]bool{})
		}
	}
	return out
}

// touched tells whether a run left something behind in package variables.
func (m *Machine) touched(before map[*ssa.Global]string) bool {
	for g, s := range m.globalState() {
		if s != before[g] {
			return true
		}
	}
	return false
}

// twice is g run after another run of itself on inputs of its own.
func twice(g *Gadget) *Gadget {
	n := len(g.ins)
	h := *g
	h.key = g.key + " after another run"
	h.ins = nil
	for _, x := range g.ins {
		x.name = "before_" + x.name
		h.ins = append(h.ins, x)
	}
	h.ins = append(h.ins, g.ins...)
	h.dom = func(in []*Term) *Term {
		return And(condOr(g.dom, in[:n], trueT), condOr(g.pre, in[:n], trueT), condOr(g.dom, in[n:], trueT))
	}
	h.pre = func(in []*Term) *Term { return condOr(g.pre, in[n:], trueT) }
	if g.reject != nil {
		h.reject = func(in []*Term) *Term { return g.reject(in[n:]) }
	}
	if g.outs != nil {
		h.outs = func(in []*Term) []*Term { return g.outs(in[n:]) }
	}
	if g.lemmas != nil {
		h.lemmas = func(in []*Term) []*Term { return append(g.lemmas(in[:n]), g.lemmas(in[n:])...) }
	}
	h.call = func(m *Machine, in []*Term) ([]*Term, bool) {
		g.call(m, in[:n])
		return g.call(m, in[n:])
	}
	var head []string
	code := g.goCode
	for {
		nl := strings.IndexByte(code, '\n')
		if strings.HasPrefix(code, "//import ") || strings.HasPrefix(code, "//stages") {
			head, code = append(head, code[:nl+1]), code[nl+1:]
		} else if strings.HasPrefix(code, "//top\n") {
			e := strings.Index(code, "//end\n") + len("//end\n")
			head, code = append(head, code[:e]), code[e:]
		} else {
			break
		}
	}
	if code != "" {
		h.goCode = strings.Join(head, "") + fmt.Sprintf("	run := func(a []*big.Int) (outs []frontend.Variable, err error) {\n%s\n	}\n	run(a[:%d])\n	return run(a[%d:])", code, n, n)
	}
	h.vals = func(r *rand.Rand, ins []In) []*big.Int {
		one := func() []*big.Int {
			return drawFor(r, g)
		}
		return append(one(), one()...)
	}
	h.second, h.realCheck, h.harmless = true, nil, nil
	h.solve = nil
	for _, i := range g.solve {
		h.solve = append(h.solve, n+i)
	}
	h.noTrace = true
	return &h
}

// changes lists what a run altered; the solver decides about values that only
// look different.
func (ck *Check) changes(m *Machine, o *Outcome) []string {
	w := o.run.watched
	var out []string
	var p *Prover
	for i, c := range w.cells {
		b, ok := (*c.p).(BigInt)
		if !ok || b.t == nil {
			out = append(out, fmt.Sprintf("input cell %d", i))
			continue
		}
		a, t := intern(b.t), intern(c.t)
		if a == t {
			continue
		}
		if p == nil {
			p = ck.prover(o.run.factTerms(nil), o.run.sub)
		}
		if p.Prove(Eq(a, t)) != Unsat {
			out = append(out, fmt.Sprintf("input %s becomes %s", t, a.str(3)))
		}
	}
	for _, s := range w.slices {
		for i, x := range s.full {
			if snapshot(x, false, nil) == s.was[i] {
				continue
			}
			if t := m.asTerm(x); t != nil && s.old[i] != nil { // another number object, perhaps the same number
				if p == nil {
					p = ck.prover(o.run.factTerms(nil), o.run.sub)
				}
				if p.Prove(Eq(t, s.old[i])) == Unsat {
					continue
				}
			}
			{
				out = append(out, fmt.Sprintf("element %d of %s", i, s.what))
			}
		}
	}
	for g, was := range m.globalState() {
		if was != w.global[g] {
			out = append(out, "package variable "+g.Name())
		}
	}
	return out
}

var setCopy = regexp.MustCompile(`new\(big\.Int\)\.Set\((\w+(?:\[[^\]]*\])?)\)`)

// aggTwice verifies the same inputs twice, in slices with something behind them.
func aggTwice(n int) string {
	return fmt.Sprintf(`c := &AggregatorCircuit{}
	mk := func(x []*big.Int) []frontend.Variable {
		b := make([]frontend.Variable, 0, len(x)+3)
		for _, v := range x { b = append(b, v) }
		return append(b, big.NewInt(7700), big.NewInt(7701), big.NewInt(7702))
	}
	p, x2, t, v := mk(a[:104]), mk(a[104:125]), mk(a[125:%d]), mk(a[%d:])
	c.Proof, c.Aux, c.TargetInst, c.VerifyInst = p[:len(p)-3], x2[:len(x2)-3], t[:len(t)-3], v[:len(v)-3]
	names := []string{"Proof", "Aux", "TargetInst", "VerifyInst"}
	full := [][]frontend.Variable{p, x2, t, v}
	var was [][]frontend.Variable
	for _, f := range full { was = append(was, append([]frontend.Variable(nil), f...)) }
	defer func() {
		for i, f := range full {
			for j := range f {
				w, ok := f[j].(*big.Int)
				if f[j] != was[i][j] && (!ok || w.Cmp(was[i][j].(*big.Int)) != 0) { x.res.Mutated = append(x.res.Mutated, fmt.Sprintf("%%s[%%d]", names[i], j)) }
				if j >= len(f)-3 && ok && w.Int64() != int64(7700+j-len(f)+3) { x.res.Mutated = append(x.res.Mutated, fmt.Sprintf("behind %%s", names[i])) }
			}
		}
	}()
	if err = c.Define(api); err != nil { return nil, err }
	x.info("accepted once")
	return nil, c.Define(api)`, 125+n, 125+n)
}

func init() {
	prop("C29", func(ck *Check) {
		ids := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12", "C13", "C15", "C16", "C17", "C18", "C22", "C23", "C24", "C25"}
		gs := ck.catalog(2, ids...)
		ck.bound(fmt.Sprintf("every path of %d functions and circuits (all inputs and hint answers, sizes as in their own checks): %s", len(gs), keys(gs)))
		seen := map[string]bool{}
		called, tries := map[string]int{}, map[string]int{}
		for _, g := range gs {
			if ck.over() {
				ck.inconclusive("%s: not reached within the time limit", g.key)
				continue
			}
			in := make([]*Term, len(g.ins))
			for i := range g.ins {
				in[i] = g.ins[i].term()
			}
			ex := ck.explorer(Adversarial)
			ex.setup, ex.deadline = g.setup, ck.deadline()
			ex.maxPaths = 40
			for _, o := range ex.Explore(func(m *Machine) (Value, interface{}) {
				if d := condOr(g.dom, in, trueT); d != trueT {
					m.assume(d, "domain")
				}
				o, r := g.call(m, in)
				return nil, gadgetState{o, r}
			}) {
				if o.kind == Unsupported || o.kind == BoundHit {
					ck.inconclusive("%s: %s", g.key, o.why)
					continue
				}
				for _, h := range o.run.hints {
					f, ok := h.fn.(*ssa.Function)
					if !ok {
						if c, is := h.fn.(*Closure); is {
							f, ok = c.fn, true
						}
					}
					if !ok {
						ck.inconclusive("%s: hint function not resolved", g.key)
						continue
					}
					called[h.name]++
					reg := o.run.registered[f]
					key := fmt.Sprint(h.name, reg, g.key)
					if seen[key] {
						continue
					}
					seen[key] = true
					ck.obl++
					r := ck.Solve(append(o.run.factTerms(nil), Not(B(reg))), ck.tmo)
					if r.v == Unsat {
						continue
					}
					ck.oblBad++
					if tries[h.name]++; tries[h.name] <= 4 && !ck.violated("unregistered "+f.Name()) {
						ck.unregistered(g, h.name, f)
					}
				}
			}
		}
		var l []string
		for _, k := range sortedKeys(called) {
			l = append(l, fmt.Sprintf("%s (x%d)", k, called[k]))
		}
		ck.sample("hint functions called: " + strings.Join(l, ", "))
	})

	prop("C31", func(ck *Check) {
		ids := []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C22", "C23", "C24", "C25"}
		gs := ck.catalog(2, ids...)
		ck.bound(fmt.Sprintf("every input cell, argument slice (with the capacity behind it) and package variable, on every path of %d functions and circuits, with hints answered by the hint functions themselves and with arbitrary answers: %s", len(gs), keys(gs)))
		ck.assumption("a run is a function of its inputs, the package's variables and the hint answers, so unchanged inputs and variables give the same verdict again")
		n := 0
		for _, g := range gs {
			if ck.over() {
				ck.inconclusive("%s: not reached within the time limit", g.key)
				continue
			}
			t0 := time.Now()
			n += ck.untouched(g)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "# %s %.2fs\n", g.key, time.Since(t0).Seconds())
			}
		}
		ck.sample(fmt.Sprintf("%d input cells and slice elements compared on %d paths", n, ck.stats.Paths))
		// the recorded proof twice over
		g := aggGadget(4, 1)
		g.key, g.goCode = "AggregatorCircuit twice", aggTwice(4)
		if len(ck.viol) == 0 {
			ck.twice(g, g.vals(ck.rng, g.ins))
		}
	})
}

func keys(gs []*Gadget) string {
	var l []string
	for _, g := range gs {
		l = append(l, g.key)
	}
	return strings.Join(l, ", ")
}

// unregistered confirms on the real code that the hint is called and not known
// to the solver.
func (ck *Check) unregistered(g *Gadget, name string, f *ssa.Function) {
	if f.Parent() != nil || f.Pkg != ck.prog.main {
		ck.inconclusive("%s: calls %s, which is not registered (not confirmed)", g.key, f)
		return
	}
	ck.needHarness()
	codes := map[string]string{g.key: g.goCode, "registered": fmt.Sprintf(`for _, h := range solver.GetRegisteredHints() {
		if solver.GetHintID(h) == solver.GetHintID(%s) { return nil, nil }
	}
	return nil, errors.New("%s is not registered")`, f.Name(), f.Name())}
	cs := []*Case{{Target: "registered", Args: []string{}}}
	for i := 0; i < 4; i++ {
		v := ck.draw(g)
		cs = append(cs, &Case{Target: g.key, Args: strs(v), Record: true})
	}
	res := ck.harness.run(codes, cs)
	if len(res) == len(cs) && res[0].Status == "error" {
		for i, r := range res[1:] {
			for _, c := range r.Calls {
				if strings.HasSuffix(c.Name, "."+f.Name()) {
					ck.stats.Traces++
					ck.violation("unregistered "+f.Name(), fmt.Sprintf("%s calls the hint %s, which is not registered with the solver", g.key, f.Name()), map[string]interface{}{"case": cs[i+1], "result": res[0]})
					return
				}
			}
		}
	}
	ck.inconclusive("%s: calls the unregistered hint %s (not confirmed)", g.key, name)
}

// untouched runs g and compares its inputs afterwards.
func (ck *Check) untouched(g *Gadget) (n int) {
	in := make([]*Term, len(g.ins))
	for i := range g.ins {
		in[i] = g.ins[i].term()
		if g.ins[i].kind == KFr { // reduced or not
			in[i] = Var(g.ins[i].name, big0, two256m1)
		}
	}
	var bad []string
	for _, mode := range []HintMode{Honest, Adversarial} {
		ex := ck.explorer(mode)
		ex.deadline = ck.deadline()
		ex.maxPaths = 40
		var last *Machine
		ex.setup = func(r *Run) {
			if g.setup != nil {
				g.setup(r)
			}
			r.watched = &Watched{}
		}
		ex.visit = func(o *Outcome) bool {
			if o.kind == Unsupported || o.kind == BoundHit {
				ck.inconclusive("%s: %s", g.key, o.why)
				return true
			}
			if last == nil || o.run.watched.global == nil {
				return true
			}
			ck.obl++
			n += len(o.run.watched.cells)
			for _, s := range o.run.watched.slices {
				n += len(s.full)
			}
			if ch := ck.changes(last, o); len(ch) > 0 {
				ck.oblBad++
				bad = append(bad, ch...)
			} else {
				ck.Solve([]*Term{Not(trueT)}, ck.tmo)
			}
			return len(bad) < 4
		}
		ex.Explore(func(m *Machine) (Value, interface{}) {
			last = m
			m.run.watched.global = m.globalState()
			if d := condOr(g.dom, in, trueT); d != trueT {
				m.assume(d, "domain")
			}
			if d := condOr(g.pre, in, trueT); mode == Honest && g.compl && d != trueT {
				m.assume(d, "precondition")
			}
			o, r := g.call(m, in)
			return nil, gadgetState{o, r}
		})
		if len(bad) > 0 {
			break
		}
	}
	if len(bad) == 0 {
		return
	}
	h := *g
	h.goCode = setCopy.ReplaceAllString(g.goCode, "$1")
	if strings.HasPrefix(g.key, "AggregatorCircuit/") {
		var t, k int
		fmt.Sscanf(g.key, "AggregatorCircuit/%d+%d", &t, &k)
		h.goCode = aggTwice(t)
	}
	for i := 0; i < 8; i++ {
		v := ck.draw(&h)
		if i%2 == 1 {
			for j := range v {
				if h.ins[j].kind == KFr && (i%4 == 1 || ck.rng.Intn(2) == 0) {
					v[j] = new(big.Int).Add(v[j], rMod)
				}
			}
		}
		if ck.twice(&h, v) {
			return
		}
	}
	ck.inconclusive("%s: may change %s (not reproduced)", g.key, bad[0])
	return
}

// twice runs the real code on the same inputs again and again: nothing may
// change and the verdicts must agree.
func (ck *Check) twice(g *Gadget, v []*big.Int) bool {
	ck.needHarness()
	var w []*big.Int
	for _, x := range v { // another input in between
		w = append(w, new(big.Int).Set(x))
	}
	if len(w) > 0 {
		w[len(w)-1] = new(big.Int).Mod(new(big.Int).Add(w[len(w)-1], big1), rMod)
	}
	cs := []*Case{{Target: g.key, Args: strs(v)}, {Target: g.key, Args: strs(w)}, {Target: g.key, Args: strs(v)}}
	if strings.Contains(g.goCode, "accepted once") { // repeats by itself
		cs = cs[:1]
	}
	res := ck.harness.run(ck.code(g), cs)
	if len(res) != len(cs) {
		ck.inconclusive("%s: no real run", g.key)
		return false
	}
	ck.stats.Traces += len(cs)
	for i, r := range res {
		if len(r.Mutated) > 0 {
			ck.violation(g.key+" changes its inputs", fmt.Sprintf("%s changes what it was given: %s", g.key, r.Mutated[0]), map[string]interface{}{"case": cs[i], "result": r})
			return true
		}
		if len(r.Info) > 0 && r.Info[0] == "accepted once" && r.Status != "ok" {
			ck.violation(g.key+" verdict changes", fmt.Sprintf("%s accepts its inputs once and not a second time (%s)", g.key, r.Err), map[string]interface{}{"case": cs[i], "result": r})
			return true
		}
	}
	if len(res) == 3 && (res[0].Status != res[2].Status || strings.Join(res[0].Outs, ",") != strings.Join(res[2].Outs, ",")) {
		ck.violation(g.key+" verdict changes", fmt.Sprintf("%s gives %s and later %s for the same inputs", g.key, res[0].Status, res[2].Status), map[string]interface{}{"cases": cs, "results": res})
		return true
	}
	return false
}
