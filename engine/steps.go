package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Steps makes the package's own fallible functions report an error, one call per
// path, so that every place that could drop an error is visited.
type Steps struct {
	stack []string
	idx   []map[string]int // per open call: how often it called each function
	calls map[string]int   // function -> calls that succeeded so far
	seen  map[string]bool
	skip  map[string]bool
	perFn int
	Fired string // function whose call was made to fail
	Nth   int    // which call of it (1 = first)
	Where string
}

func newSteps(perFn int) *Steps {
	return &Steps{idx: []map[string]int{{}}, stack: []string{""}, calls: map[string]int{}, seen: map[string]bool{}, perFn: perFn}
}

// fallible functions can be wrapped in the real code as well.
func fallible(fn *ssa.Function) bool {
	sig := fn.Signature
	if sig.Recv() != nil || fn.Parent() != nil || len(fn.TypeArgs()) > 0 || sig.Results().Len() == 0 || fn.Name() == "init" {
		return false
	}
	if sig.Params().Len() > 0 && sig.Params().At(0).Type().String() == "*math/big.Int" {
		return false // a hint function
	}
	last := sig.Results().At(sig.Results().Len() - 1).Type()
	return types.Identical(last, types.Universe.Lookup("error").Type())
}

func (s *Steps) enter(fn *ssa.Function) {
	s.idx[len(s.idx)-1][fn.Name()]++
	s.stack = append(s.stack, fn.Name())
	s.idx = append(s.idx, map[string]int{})
}

func (s *Steps) leave(m *Machine, fn *ssa.Function, res Value) Value {
	for len(s.stack) > 1 && s.stack[len(s.stack)-1] != fn.Name() {
		s.stack, s.idx = s.stack[:len(s.stack)-1], s.idx[:len(s.idx)-1]
	}
	s.stack, s.idx = s.stack[:len(s.stack)-1], s.idx[:len(s.idx)-1]
	if s.Fired != "" || !fallible(fn) {
		return res
	}
	t, isT := res.(Tuple)
	var e Value = res
	if isT {
		e = t[len(t)-1]
	}
	if isErr(e) {
		return res // it failed by itself
	}
	s.calls[fn.Name()]++
	caller := s.stack[len(s.stack)-1]
	i := s.idx[len(s.idx)-1][fn.Name()]
	key := fmt.Sprintf("%s>%s#%d", caller, fn.Name(), i)
	if s.seen[key] || (s.perFn > 0 && i > s.perFn) {
		return res
	}
	s.seen[key] = true
	if os.Getenv("VERIF_STEPS") != "" {
		fmt.Fprintln(os.Stderr, "step", key)
		return res
	}
	if !m.decideSecond(BoolVar(fmt.Sprintf("stepfail!%d", len(s.seen)))) {
		return res
	}
	s.Fired, s.Nth, s.Where = fn.Name(), s.calls[fn.Name()], key
	m.run.faults = append(m.run.faults, key)
	if !isT {
		return m.mkErr("injected")
	}
	t = append(Tuple(nil), t...)
	t[len(t)-1] = m.mkErr("injected")
	return t
}

// stepFaults makes every fallible step of g fail in turn: the run as a whole must
// then not be accepted.
func (ck *Check) stepFaults(g *Gadget, perFn int) {
	if ck.collect != nil {
		return
	}
	in := make([]*Term, len(g.ins))
	for i := range g.ins {
		in[i] = g.ins[i].term()
	}
	ex := ck.explorer(Adversarial)
	ex.maxPaths = 2000
	var cur *Steps
	ex.setup = func(r *Run) {
		if g.setup != nil {
			g.setup(r)
		}
		cur = newSteps(perFn)
		r.steps = cur
	}
	tried := map[string]bool{}
	type bad struct {
		fn, where string
		n         int
	}
	var bads []bad
	ex.visit = func(o *Outcome) bool {
		if o.kind == Unsupported || o.kind == BoundHit {
			if cur.Fired == "" || !tried[cur.Where] {
				ck.inconclusive("%s with failing steps: %s", g.key, o.why)
			}
			return true
		}
		if cur.Fired == "" {
			return true
		}
		if !tried[cur.Where] {
			ck.obl++
			tried[cur.Where] = true
		}
		if o.kind != Returned || o.st.(gadgetState).rejected {
			return true
		}
		if p := ck.prover(o.run.factTerms(nil), o.run.sub); p.Prove(falseT) == Unsat {
			return true
		}
		ck.oblBad++
		bads = append(bads, bad{cur.Fired, cur.Where, cur.Nth})
		return len(bads) < 3
	}
	ex.Explore(func(m *Machine) (Value, interface{}) {
		o, r := g.call(m, in)
		return nil, gadgetState{o, r}
	})
	if ex.truncated {
		ck.inconclusive("%s with failing steps: not all of them reached", g.key)
	}
	ck.bound(fmt.Sprintf("%s: each of %d fallible steps made to fail", g.key, len(tried)))
	for _, b := range bads {
		h := *g
		h.key = fmt.Sprintf("%s/failing %s", g.key, b.where)
		h.goCode = fmt.Sprintf("//stages %s\n\tvfFail = map[string]int{%q: %d}\n\tdefer func() { vfFail = map[string]int{} }()\n\t", b.fn, b.fn, b.n) + strings.TrimPrefix(g.goCode, "//stages\n")
		c := &Case{Target: h.key, Args: strs(ck.draw(g))}
		ck.needHarness()
		res := ck.harness.run(map[string]string{h.key: h.goCode}, []*Case{c})
		if len(res) == 1 && res[0].Status == "ok" {
			ck.violation(g.key+" failing step", fmt.Sprintf("%s is accepted although %s reported an error (%s)", g.key, b.fn, b.where), map[string]interface{}{"case": c, "result": res[0], "failing": b.fn, "call": b.n})
			return
		}
		ck.inconclusive("%s: an error of %s may go unnoticed (not reproduced)", g.key, b.where)
	}
}
