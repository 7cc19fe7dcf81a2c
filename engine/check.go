package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Check is one run of one property's check.
type Check struct {
	id      string
	prog    *Program
	tier    string
	seed    int64
	repo    string
	verif   string
	stats   *Stats
	tmo     time.Duration
	start   time.Time
	lemmaM  Verdict
	lemma   Verdict
	viol    []*Violation
	known   []string
	incon   []string
	notes   map[string]int
	samples []string
	bounds  []string
	assume  []string
	rng     *rand.Rand
	harness *Harness
	kfs     []KnownFinding
	collect *[]*Gadget // only list the functions that would be checked
	codes   map[string]string
	obl     int // obligations proved
	oblBad  int
}

type Violation struct {
	What   string      `json:"what"`
	Key    string      `json:"key"`
	Replay interface{} `json:"replay"`
	Path   string      `json:"-"`
}

// over reports that the time set aside for this check is used up; what is left
// is then reported as undecided.
func (ck *Check) over() bool {
	d := 450 * time.Second
	if ck.tier == "thorough" {
		d = 40 * time.Minute
	}
	if len(ck.viol) > 0 && d > 2*time.Minute { // enough to report
		d = 2 * time.Minute
	}
	return time.Since(ck.start) > d
}

func (ck *Check) deadline() time.Time {
	if ck.tier == "thorough" {
		return ck.start.Add(40 * time.Minute)
	}
	return ck.start.Add(450 * time.Second)
}

func (ck *Check) note(s string) { ck.notes[s]++ }
func (ck *Check) inconclusive(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, x := range ck.incon {
		if x == s {
			return
		}
	}
	ck.incon = append(ck.incon, s)
	fmt.Printf("INCONCLUSIVE property=%s %s\n", ck.id, s)
}
func (ck *Check) bound(s string)      { ck.bounds = append(ck.bounds, s) }
func (ck *Check) assumption(s string) { ck.assume = append(ck.assume, s) }
func (ck *Check) sample(s string) {
	if len(ck.samples) < 12 {
		ck.samples = append(ck.samples, s)
	}
}

type KnownFinding struct {
	prop, key, text string
}

// loadKnown reads KNOWN_FINDINGS.txt: lines "finding: property=<id> key=<key> <text>".
func loadKnown(verif string) []KnownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var out []KnownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		out = append(out, KnownFinding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return out
}

// violation records a confirmed violation; key identifies what fails.
func (ck *Check) violation(key, what string, replay interface{}) {
	for _, k := range ck.kfs {
		if k.prop == ck.id && k.key == key {
			for _, s := range ck.known {
				if s == k.text {
					return
				}
			}
			ck.known = append(ck.known, k.text)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.id, k.text)
			return
		}
	}
	for _, v := range ck.viol {
		if v.Key == key {
			return
		}
	}
	v := &Violation{What: what, Key: key, Replay: replay}
	dir := filepath.Join(ck.verif, "replays")
	os.MkdirAll(dir, 0755)
	v.Path = filepath.Join(dir, fmt.Sprintf("%s_%d.json", ck.id, len(ck.viol)+1))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": ck.id, "what": what, "key": key, "case": replay}, "", " ")
	os.WriteFile(v.Path, b, 0644)
	ck.viol = append(ck.viol, v)
	fmt.Printf("VIOLATION property=%s replay=%s\n", ck.id, v.Path)
	fmt.Printf("  %s\n", what)
}

func (ck *Check) finish() int {
	if ck.harness != nil {
		ck.harness.close()
	}
	ev := map[string]interface{}{
		"property": ck.id, "tier": ck.tier, "seed": ck.seed, "level": "model_checking",
		"wall_s": time.Since(ck.start).Seconds(),
	}
	cov := map[string]interface{}{
		"states": ck.stats.States, "transitions": ck.stats.Steps, "traces_validated_against_impl": ck.stats.Traces,
	}
	sm := ck.samples
	if sm == nil {
		sm = []string{}
	}
	cov["samples"] = sm
	var fns []string
	if ck.prog != nil {
		fns = sortedKeys(ck.prog.encoded)
	}
	if fns == nil {
		fns = []string{}
	}
	cov["functions_encoded"] = fns
	cov["bounds"] = append([]string{}, ck.bounds...)
	cov["paths"] = ck.stats.Paths
	cov["path_outcomes"] = ck.stats.Outcomes
	cov["blocks_of_target_visited"] = len(ck.stats.Blocks)
	cov["obligations"] = ck.obl
	cov["obligations_undecided"] = ck.oblBad
	cov["queries"] = ck.stats.Queries
	cov["queries_unsat"] = ck.stats.Unsat
	cov["queries_sat"] = ck.stats.Sat
	cov["queries_unknown"] = ck.stats.Unknown
	cov["solver_time_ms"] = int(ck.stats.SolverMS)
	cov["solvers"] = ck.stats.Solvers
	cov["algebraic_lemmas"] = ck.stats.Lemmas
	cov["normal_form_only"] = ck.stats.NFOnly
	cov["inconclusive"] = append([]string{}, ck.incon...)
	var ns []string
	for k, n := range ck.notes {
		ns = append(ns, fmt.Sprintf("%s (x%d)", k, n))
	}
	sort.Strings(ns)
	cov["notes"] = append([]string{}, ns...)
	cov["known_findings"] = append([]string{}, ck.known...)
	ev["coverage"] = cov
	ev["assumptions"] = append([]string{}, ck.assume...)
	var vs []interface{}
	for _, v := range ck.viol {
		vs = append(vs, map[string]interface{}{"what": v.What, "replay": v.Path})
	}
	if vs == nil {
		vs = []interface{}{}
	}
	ev["violations"] = vs
	os.MkdirAll(filepath.Join(ck.verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(ck.verif, "evidence", ck.id+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s %s: obligations=%d undecided=%d paths=%d queries=%d (unsat %d, sat %d, unknown %d) solver=%.1fs traces=%d wall=%.1fs violations=%d known=%d\n",
		ck.id, ck.tier, ck.obl, ck.oblBad, ck.stats.Paths, ck.stats.Queries, ck.stats.Unsat, ck.stats.Sat, ck.stats.Unknown,
		ck.stats.SolverMS/1000, ck.stats.Traces, time.Since(ck.start).Seconds(), len(ck.viol), len(ck.known))
	if len(ck.viol) > 0 {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------- gadget checks

type Kind int

const (
	KFr Kind = iota // field element in [0,r)
	KByte
	KFp
	KU256
	KPointX // x of a curve point; the following argument is its y
	KPointY
	KSmall // [0,n]
	KNzFr  // non-zero scalar
	KSecpN // below the secp256k1 group order
	KBig   // any 300-bit non-negative integer
)

type In struct {
	name string
	kind Kind
	n    int64 // KSmall bound
}

func (i In) term() *Term {
	switch i.kind {
	case KByte:
		return ByteVar(i.name)
	case KFp, KPointX, KPointY:
		return Var(i.name, big0, pMinus1)
	case KU256:
		return Var(i.name, big0, two256m1)
	case KSmall:
		return Var(i.name, big0, big.NewInt(i.n))
	case KNzFr:
		return Var(i.name, big1, rMinus1)
	case KSecpN:
		return Var(i.name, big0, new(big.Int).Sub(secpN, big1))
	case KBig:
		return Var(i.name, big0, new(big.Int).Sub(pow2(300), big1))
	}
	return FrVar(i.name)
}

// Gadget describes a function under check: its inputs, the exact result it
// must give, the domain on which it must accept and when it must refuse.
type Gadget struct {
	key         string
	ins         []In
	call        func(m *Machine, in []*Term) (outs []*Term, rejected bool)
	goCode      string                   // body of func(api frontend.API, a []*big.Int) (outs []frontend.Variable, err error)
	dom         func(in []*Term) *Term   // always assumed
	pre         func(in []*Term) *Term   // domain of completeness
	reject      func(in []*Term) *Term   // must not be accepted
	outs        func(in []*Term) []*Term // required outputs
	sound       bool
	compl       bool
	maxP        int
	vals        func(r *rand.Rand, in []In) []*big.Int // interesting inputs
	isAux       func(t *Term) bool
	env         func(e Env, in []*Term)
	post        func(in []*Term) []*Term // final values of the arguments (default: not checked)
	noTrace     bool
	complReal   bool                                             // real runs on valid inputs must be accepted (no symbolic completeness)
	second      bool                                             // the gadget already runs after another run
	harmless    func(ck *Check, vals []*big.Int, r *Result) bool // an accepted input that should be refused, yet makes no difference
	solve       []int                                            // inputs a prover would derive from the path's equations, in order
	traces      int
	perturb     func(hints [][]string, in []*big.Int) // adversarial perturbations
	setup       func(r *Run)
	hintHook    func(name string, in []*big.Int, out []*big.Int) [][]*big.Int
	hostPanicOK bool
	lemmas      func(in []*Term) []*Term                // extra valid facts (contracts of library predicates)
	realCheck   func(vals []*big.Int, r *Result) string // what a recorded real run did wrong
}

type gadgetState struct {
	outs     []*Term
	rejected bool
}

func (ck *Check) explorer(mode HintMode) *Explorer {
	return &Explorer{prog: ck.prog, mode: mode, maxPaths: 256, stats: ck.stats}
}

func condOr(f func([]*Term) *Term, in []*Term, d *Term) *Term {
	if f == nil {
		return d
	}
	return f(in)
}

func (r *Run) factTerms(keep func(f Fact) bool) []*Term {
	var out []*Term
	for _, f := range r.facts {
		if keep == nil || keep(f) {
			out = append(out, f.cond)
		}
	}
	return out
}

// pending is an obligation the solver did not prove.
type pending struct {
	what  string
	mode  HintMode
	model map[*Term]*big.Int
	path  *Outcome
	goal  *Term
	facts []*Term
}

// Gadgets checks several functions with one harness binary.
func (ck *Check) Gadgets(gs ...*Gadget) {
	if ck.collect != nil {
		*ck.collect = append(*ck.collect, gs...)
		return
	}
	for _, g := range gs {
		if g.goCode != "" {
			ck.codes[g.key] = g.goCode
		}
	}
	for _, g := range gs {
		if ck.over() {
			if len(ck.viol) == 0 {
				ck.inconclusive("%s: not reached within the time limit", g.key)
			}
			continue
		}
		t0 := time.Now()
		ck.Gadget(g)
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "# %s %.2fs\n", g.key, time.Since(t0).Seconds())
		}
	}
}

func (ck *Check) Gadget(g *Gadget) {
	in := make([]*Term, len(g.ins))
	for i := range g.ins {
		in[i] = g.ins[i].term()
	}
	dom := condOr(g.dom, in, trueT)
	pre := condOr(g.pre, in, trueT)
	rej := condOr(g.reject, in, falseT)
	var pend []pending
	leftover := false
	modes := []HintMode{}
	if g.sound {
		modes = append(modes, Adversarial)
	}
	if g.compl {
		modes = append(modes, Honest)
	}
	for _, mode := range modes {
		ex := ck.explorer(mode)
		if g.maxP > 0 {
			ex.maxPaths = g.maxP
		}
		ex.setup = g.setup
		ex.deadline = ck.deadline()
		ex.visit = func(o *Outcome) bool {
			n := len(pend)
			pend = append(pend, ck.judge(g, o, mode, in, rej)...)
			if n < 4 && len(pend) >= 4 && ck.solvable(g) { // look at the first failures before going on
				ck.resolve(g, in, pre, rej, pend)
				return !ck.violated(g.key)
			}
			return len(pend) < 40
		}
		ex.Explore(func(m *Machine) (Value, interface{}) {
			if dom != trueT {
				m.assume(dom, "domain")
			}
			if mode == Honest && pre != trueT {
				m.assume(pre, "precondition")
			}
			before := m.globalState()
			o, r := g.call(m, in)
			for i := range o {
				o[i] = m.simp(o[i])
			}
			leftover = leftover || m.touched(before)
			return nil, gadgetState{o, r}
		})
		if ex.truncated {
			ck.inconclusive("%s: more than %d paths", g.key, ex.maxPaths)
		}
		if ck.violated(g.key) {
			return
		}
	}
	ck.needHarness()
	if !g.noTrace && g.goCode != "" {
		ck.validate(g, in, pre, rej)
	}
	ck.resolve(g, in, pre, rej, pend)
	if len(pend) == 0 {
		ck.sample(fmt.Sprintf("%s: every path discharged (sound=%v complete=%v)", g.key, g.sound, g.compl))
	}
	if leftover && !g.second && !ck.violated(g.key) && !ck.over() {
		// a run leaves something behind: does the next one depend on it?
		h := twice(g)
		ck.codes[h.key] = h.goCode
		ck.Gadget(h)
	}
}

func (ck *Check) needHarness() {
	if ck.harness == nil {
		ck.harness = newHarness(ck)
	}
}

func (ck *Check) solvable(g *Gadget) bool {
	ck.needHarness()
	return g.goCode != ""
}

func (ck *Check) violated(key string) bool {
	for _, v := range ck.viol {
		if v.Key == key {
			return true
		}
	}
	return false
}

// judge turns one explored path into proof obligations.
func (ck *Check) judge(g *Gadget, o *Outcome, mode HintMode, in []*Term, rej *Term) []pending {
	var pend []pending
	r := o.run
	m := o.m
	miss := func(what string, p *Prover, goal *Term) {
		pend = append(pend, pending{what: what, mode: mode, model: p.model, path: o, goal: goal, facts: p.facts})
		ck.oblBad++
	}
	goalOf := func(t *Term) *Term { return m.simp(t) }
	switch o.kind {
	case Unsupported, BoundHit:
		ck.inconclusive("%s: path not encodable: %s", g.key, o.why)
		return nil
	}
	if strings.HasPrefix(o.why, "assumption false") { // nothing to show on this path
		return nil
	}
	if mode == Honest {
		// every constraint on the path must follow from what came before it
		var before []*Term
		if g.lemmas != nil {
			before = append(before, g.lemmas(in)...)
		}
		for _, f := range r.facts {
			if f.kind == "constraint" && f.desc != "narrow" {
				p := ck.prover(before, r.sub)
				ck.obl++
				c := f.cond
				// a gadget may refuse inputs it has to refuse
				goal := Or(goalOf(rej), m.simp(c))
				if v := p.Prove(goal); v != Unsat {
					miss(g.key+": honest execution may fail "+f.desc, p, goal)
				}
			}
			before = append(before, f.cond)
		}
		if o.kind == Rejected || o.kind == Panicked || (o.kind == Returned && o.st.(gadgetState).rejected) {
			p := ck.prover(before, r.sub)
			ck.obl++
			goal := goalOf(rej)
			if v := p.Prove(goal); v != Unsat {
				if os.Getenv("VERIF_DEBUG") != "" {
					for _, f := range r.facts {
						fmt.Fprintln(os.Stderr, "#fact", f.kind, f.desc, f.cond)
					}
				}
				miss(fmt.Sprintf("%s: valid inputs refused (%s %s)", g.key, o.kind, o.why), p, goal)
			}
			return pend
		}
	} else if o.kind != Returned || o.st.(gadgetState).rejected {
		return nil
	}
	st := o.st.(gadgetState)
	facts := r.factTerms(nil)
	if g.lemmas != nil {
		facts = append(facts, g.lemmas(in)...)
	}
	p := ck.prover(facts, r.sub)
	p.SolveAux(func(t *Term) bool { return isFresh(t) || (g.isAux != nil && g.isAux(t)) })
	if rej != falseT {
		ck.obl++
		goal := Not(rej)
		if v := p.Prove(goal); v != Unsat {
			miss(g.key+": accepts an input it must refuse", p, goal)
		}
	}
	if g.outs != nil {
		want := g.outs(in)
		if len(want) != len(st.outs) {
			ck.inconclusive("%s: %d outputs, expected %d", g.key, len(st.outs), len(want))
			return pend
		}
		for i := range want {
			ck.obl++
			goal := Eq(st.outs[i], want[i])
			if v := p.Prove(goal); v != Unsat {
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "#goal", p.sub.apply(goal).str(12))
				}
				miss(fmt.Sprintf("%s: output %d may differ from the specified value", g.key, i), p, goal)
			}
		}
	}
	return pend
}

// ---- concrete candidates

var edgeFr = func() []*big.Int {
	var o []*big.Int
	for _, k := range []int64{0, 1, 2, 3, 255, 256} {
		o = append(o, big.NewInt(k))
	}
	o = append(o, rMinus1, new(big.Int).Sub(rMod, big.NewInt(2)), new(big.Int).Rsh(rMod, 1), pow2(128), new(big.Int).Sub(pow2(253), big1))
	return o
}()

func randBelow(r *rand.Rand, n *big.Int) *big.Int {
	if n.Sign() <= 0 {
		return big.NewInt(0)
	}
	return new(big.Int).Rand(r, n)
}

var genPt = cpt{big.NewInt(1), big.NewInt(2)}

// draw picks concrete inputs for a run of the real code.
func (ck *Check) draw(g *Gadget) []*big.Int { return drawFor(ck.rng, g) }

func drawFor(r *rand.Rand, g *Gadget) []*big.Int {
	if g.vals != nil {
		return g.vals(r, g.ins)
	}
	return drawVals(r, g.ins)
}

func (ck *Check) randomVals(ins []In) []*big.Int { return drawVals(ck.rng, ins) }

func drawVals(r *rand.Rand, ins []In) []*big.Int {
	out := make([]*big.Int, len(ins))
	for i, x := range ins {
		switch x.kind {
		case KFr:
			switch {
			case r.Intn(4) == 0:
				out[i] = edgeFr[r.Intn(len(edgeFr))]
			case r.Intn(4) == 0 && i > 0 && ins[i-1].kind == KFr:
				out[i] = out[i-1]
			default:
				out[i] = randBelow(r, rMod)
			}
		case KNzFr:
			out[i] = new(big.Int).Add(randBelow(r, rMinus1), big1)
		case KByte:
			out[i] = big.NewInt(int64(r.Intn(256)))
		case KFp:
			out[i] = randBelow(r, pMod)
		case KU256:
			out[i] = randBelow(r, two256)
		case KSmall:
			out[i] = big.NewInt(r.Int63n(x.n + 1))
		case KSecpN:
			out[i] = randBelow(r, secpN)
		case KBig:
			out[i] = randBelow(r, pow2(300))
		case KPointX:
			q := genPt.mul(new(big.Int).Add(randBelow(r, rMinus1), big1))
			out[i] = q.x
			if i+1 < len(ins) {
				out[i+1] = q.y
			}
		case KPointY:
		}
	}
	return out
}

// envOf assigns the inputs.
func envOf(in []*Term, vals []*big.Int) Env {
	e := Env{}
	for i := range in {
		e[in[i]] = vals[i]
	}
	return e
}

// expectation of one concrete run.
type expect struct {
	pre, rej bool
	outs     []*big.Int
	ok       bool
}

func (ck *Check) expect(g *Gadget, in []*Term, vals []*big.Int) (x expect) {
	e := envOf(in, vals)
	ev := func(t *Term) (bool, bool) {
		v, err := e.Eval(t)
		return err == nil && v.Sign() != 0, err == nil
	}
	dom, ok0 := ev(condOr(g.dom, in, trueT))
	pre, ok1 := ev(condOr(g.pre, in, trueT))
	rej, ok2 := ev(condOr(g.reject, in, falseT))
	x.pre, x.rej = pre && dom, rej
	x.ok = ok0 && ok1 && ok2 && dom
	if g.outs != nil && !(rej && ok2) {
		for _, t := range g.outs(in) {
			v, err := e.Eval(t)
			if err != nil {
				x.ok = false
				v = nil
			}
			x.outs = append(x.outs, v)
		}
	}
	return
}

func strs(v []*big.Int) []string {
	o := make([]string, len(v))
	for i := range v {
		o[i] = v[i].String()
	}
	return o
}

// validate runs the real code and the engine on the same concrete inputs.
func (ck *Check) validate(g *Gadget, in []*Term, pre, rej *Term) {
	n := g.traces
	if n == 0 {
		n = 4
		if ck.tier == "thorough" {
			n = 16
		}
	}
	var cases []*Case
	var vals [][]*big.Int
	for i := 0; i < n*6 && len(cases) < n; i++ {
		v := ck.draw(g)
		x := ck.expect(g, in, v)
		if !x.ok {
			continue
		}
		cases = append(cases, &Case{Target: g.key, Args: strs(v), Record: g.realCheck != nil})
		vals = append(vals, v)
	}
	res := ck.harness.run(ck.code(g), cases)
	if res == nil {
		ck.inconclusive("%s: the real code could not be run: %s", g.key, ck.harness.err)
		return
	}
	for i, r := range res {
		ck.stats.Traces++
		ck.judgeReal(g, in, vals[i], cases[i], r, false)
		// the engine on the same inputs
		ct := make([]*Term, len(vals[i]))
		for j := range ct {
			ct[j] = C(vals[i][j])
		}
		ex := ck.explorer(Honest)
		ex.stats = nil
		ex.setup = g.setup
		o := ex.one(nil, func(m *Machine) (Value, interface{}) {
			o, rj := g.call(m, ct)
			return nil, gadgetState{o, rj}
		})
		if o.kind == Unsupported || o.kind == BoundHit {
			ck.inconclusive("%s: engine cannot execute concrete input: %s", g.key, o.why)
			continue
		}
		acc := o.kind == Returned && !o.st.(gadgetState).rejected
		if len(o.run.taken) > 0 { // undetermined predicate on concrete data
			continue
		}
		for _, f := range o.run.facts { // evaluate remaining predicates
			if v, err := (Env{}).Eval(o.m.simp(f.cond)); err == nil && v.Sign() == 0 {
				acc = false
			}
		}
		if acc != (r.Status == "ok") {
			ck.inconclusive("%s: engine and real code disagree on %v (engine %v %s, real %s %s)", g.key, cases[i].Args, o.kind, o.why, r.Status, r.Err)
			continue
		}
		if acc {
			for j, t := range o.st.(gadgetState).outs {
				v, err := (Env{}).Eval(o.m.simp(t))
				if err != nil || j >= len(r.Outs) {
					ck.inconclusive("%s: engine output %d not concrete", g.key, j)
					continue
				}
				if modEq(v.String(), r.Outs[j]) == false {
					ck.inconclusive("%s: engine and real code disagree on %v output %d: %s vs %s", g.key, cases[i].Args, j, v, r.Outs[j])
				}
			}
		}
	}
}

func modEq(a, b string) bool { return a == b }

// judgeReal compares a run of the real code with the specification.
func (ck *Check) judgeReal(g *Gadget, in []*Term, vals []*big.Int, c *Case, r *Result, adversarial bool) bool {
	x := ck.expect(g, in, vals)
	if !x.ok {
		return false
	}
	bad := ""
	switch {
	case r.Status == "ok" && x.rej && g.harmless != nil && g.harmless(ck, vals, r):
	case r.Status == "ok" && x.rej:
		bad = "accepted an input it must refuse"
	case r.Status == "ok":
		for i, w := range x.outs {
			if i < len(r.Outs) && r.Outs[i] != w.String() {
				bad = fmt.Sprintf("output %d is %s, specified value is %s", i, r.Outs[i], w)
				break
			}
		}
		if len(x.outs) != len(r.Outs) && bad == "" && g.outs != nil {
			return false
		}
	case strings.Contains(r.Err, "builder should implement"): // the replay wrapper's own limits
	case !adversarial && x.pre && !x.rej && (g.compl || g.complReal):
		bad = fmt.Sprintf("valid input refused (%s: %s)", r.Status, r.Err)
	}
	if bad == "" && g.realCheck != nil && r.Status == "ok" {
		bad = g.realCheck(vals, r)
	}
	if bad == "" {
		return false
	}
	ck.violation(g.key, fmt.Sprintf("%s: %s", g.key, bad), map[string]interface{}{"case": c, "result": r, "expected": fmt.Sprint(x.outs)})
	return true
}

// resolve tries to confirm unproved obligations against the real code.
func (ck *Check) resolve(g *Gadget, in []*Term, pre, rej *Term, pend []pending) {
	if len(pend) == 0 {
		return
	}
	confirmed := false
	for _, v := range ck.viol {
		if v.Key == g.key {
			confirmed = true
		}
	}
	for _, k := range ck.known {
		_ = k
	}
	for pi, p := range pend {
		if pi >= 6 || confirmed || ck.over() {
			break
		}
		var cases []*Case
		var vals [][]*big.Int
		add := func(v []*big.Int, hints []HintOverride) {
			cases = append(cases, &Case{Target: g.key, Args: strs(v), Hints: hints, Record: g.realCheck != nil})
			vals = append(vals, v)
		}
		if len(g.solve) > 0 && p.path != nil && p.mode == Adversarial {
			for i := 0; i < 3; i++ {
				if v := ck.solveInputs(g, p.path, in, ck.draw(g)); v != nil {
					add(v, nil)
				}
			}
			for i, r := range ck.harness.run(ck.code(g), cases) {
				if ck.judgeReal(g, in, vals[i], cases[i], r, false) {
					confirmed = true
					break
				}
			}
			if confirmed {
				break
			}
			cases, vals = nil, nil
		}
		// inputs suggested by the solver
		tries := [][]*big.Int{}
		if p.model != nil {
			tries = append(tries, ck.fromModel(g, in, p))
		}
		for i := 0; i < 10; i++ {
			tries = append(tries, ck.draw(g))
		}
		if p.model != nil {
			for i := range tries[:3] {
				if v := shapePoints(ck.rng, in, p, tries[i]); v != nil {
					add(v, nil)
				}
			}
		}
		for i := 0; i < 2; i++ {
			if v := ck.graft(in, p, tries[len(tries)-1-i]); v != nil {
				add(v, nil)
			}
		}
		for i := 0; i < 3; i++ {
			if v, m := ck.pinned(in, p, tries[i%len(tries)]); v != nil {
				var h []HintOverride
				if p.mode != Honest {
					h, _ = ck.hintsFrom(p, envWith(in, v, m))
				}
				add(v, h)
			}
		}
		for ti, v := range tries {
			if p.mode == Honest {
				add(v, nil)
				continue
			}
			// fix the inputs, let the solver choose the prover's values
			var hs [][]HintOverride
			if ti == 0 && p.model != nil {
				if h, ok := ck.hintsFrom(p, envWith(in, v, p.model)); ok {
					hs = append(hs, h)
				}
			}
			if ti < 5 {
				sb := newSubst()
				for i := range in {
					sb.bind(in[i], C(v[i]))
				}
				var as []*Term
				for _, f := range p.facts {
					as = append(as, sb.apply(f))
				}
				as = append(as, Not(sb.apply(p.goal)))
				r := ck.Solve(as, 10*time.Second)
				if r.v == Sat {
					if h, ok := ck.hintsFrom(p, envWith(in, v, r.model)); ok {
						hs = append(hs, h)
					}
				}
			}
			for _, h := range hs {
				add(v, h)
			}
			add(v, nil)
		}
		if g.goCode == "" {
			ck.inconclusive("%s", p.what)
			continue
		}
		res := ck.harness.run(ck.code(g), cases)
		for i, r := range res {
			if ck.judgeReal(g, in, vals[i], cases[i], r, len(cases[i].Hints) > 0) {
				confirmed = true
				break
			}
		}
		if !confirmed && g.hintHook != nil && p.mode == Adversarial {
			confirmed = ck.perturbHints(g, in, tries)
		}
		if !confirmed && !ck.isKnownKey(g.key) {
			ck.inconclusive("%s (no reproducing run found)", p.what)
		}
	}
}

// shapePoints moves pairs of inputs on or off the curve, as the solver's
// counterexample wants them.
func shapePoints(rng *rand.Rand, in []*Term, p pending, v []*big.Int) []*big.Int {
	idx := map[*Term]int{}
	for i := range in {
		idx[in[i]] = i
	}
	out := append([]*big.Int(nil), v...)
	seen, n := map[*Term]bool{}, 0
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OBVar && t.name == "oncurve" && len(t.args) == 2 {
			raw := func(t *Term) *Term {
				for t.op == OMod {
					t = intern(t.args[0])
				}
				return t
			}
			i, ok1 := idx[raw(intern(t.args[0]))]
			j, ok2 := idx[raw(intern(t.args[1]))]
			if !ok1 || !ok2 {
				return
			}
			n++
			want := true
			if x, ok := p.model[t]; ok {
				want = x.Sign() != 0
			}
			q := cpt{out[i], out[j]}
			switch {
			case want && !q.onCurve():
				q = randPoint(rng)
				out[i], out[j] = q.x, q.y
			case !want && q.onCurve():
				out[j] = new(big.Int).Mod(new(big.Int).Add(q.y, big1), pMod)
			}
			return
		}
		for _, a := range t.args {
			walk(intern(a))
		}
	}
	walk(p.goal)
	for _, f := range p.facts {
		walk(f)
	}
	if n == 0 {
		return nil
	}
	return out
}

// graft changes as little as possible of ordinary inputs to lead them down the
// counterexample's path.
func (ck *Check) graft(in []*Term, p pending, v []*big.Int) []*big.Int {
	out := append([]*big.Int(nil), v...)
	n := 0
	idx := map[*Term]int{}
	for i := range in {
		idx[in[i]] = i
		if t := p.bound(in[i]); t.isConst() && !in[i].isConst() {
			out[i] = t.k
			n++
		}
	}
	for round := 0; round < 2; round++ {
		e := envOf(in, out)
		for _, f := range p.path.run.facts {
			x, err := e.Eval(f.cond)
			if err != nil || x.Sign() != 0 {
				continue
			}
			vs := map[*Term]bool{}
			collectVars(f.cond, vs)
			for t := range vs {
				if i, ok := idx[t]; ok {
					if y, ok := p.model[t]; ok {
						out[i] = y
						n++
					}
				}
			}
		}
	}
	if n == 0 {
		return nil
	}
	return out
}

// pinned fixes the inputs uninterpreted functions depend on, replaces those
// functions by their real values and lets the solver choose the other inputs.
func (ck *Check) pinned(in []*Term, p pending, v []*big.Int) ([]*big.Int, map[*Term]*big.Int) {
	pin, seen := map[*Term]bool{}, map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OUF || t.op == OPX || t.op == OPY || t.op == OBVar && len(t.args) > 0 {
			collectVars(t, pin)
			return
		}
		for _, a := range t.args {
			walk(intern(a))
		}
	}
	as := append([]*Term{Not(p.goal)}, p.facts...)
	for _, a := range as {
		walk(intern(a))
	}
	sb, n := newSubst(), 0
	for i := range in {
		if pin[in[i]] {
			sb.bind(in[i], C(v[i]))
			n++
		}
	}
	if n == 0 || n == len(in) {
		return nil, nil
	}
	for i := range as {
		as[i] = sb.apply(as[i])
	}
	r := ck.Solve(groundUF(as), 10*time.Second)
	if r.v != Sat {
		return nil, nil
	}
	out := append([]*big.Int(nil), v...)
	for i := range in {
		if !pin[in[i]] {
			if x, ok := r.model[in[i]]; ok {
				out[i] = x
			}
		}
	}
	return out, r.model
}

// groundUF evaluates uninterpreted applications without variables.
func groundUF(as []*Term) []*Term {
	sb, seen := newSubst(), map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OUF || t.op == OPX || t.op == OPY || t.op == OBVar && len(t.args) > 0 {
			vs := map[*Term]bool{}
			collectVars(t, vs)
			if len(vs) == 0 {
				if x, err := (Env{}).Eval(t); err == nil {
					if t.op == OBVar {
						sb.bind(t, B(x.Sign() != 0))
					} else {
						sb.bind(t, C(x))
					}
					return
				}
			}
		}
		for _, a := range t.args {
			walk(intern(a))
		}
	}
	for _, a := range as {
		walk(intern(a))
	}
	out := make([]*Term, len(as))
	for i, a := range as {
		out[i] = sb.apply(a)
	}
	return out
}

// solveInputs derives some inputs from the equations of a path (each is linear
// in the last of them it mentions); inputs no equation fixes become arbitrary.
func (ck *Check) solveInputs(g *Gadget, o *Outcome, in []*Term, v []*big.Int) []*big.Int {
	v = append([]*big.Int(nil), v...)
	rank := map[*Term]int{}
	for k, i := range g.solve {
		rank[in[i]] = k
	}
	byLast := map[int][]*Term{}
	for _, f := range o.run.facts {
		c := o.run.sub.apply(f.cond)
		cs := []*Term{c}
		if c.op == OAnd {
			cs = c.args
		}
		for _, c := range cs {
			if c.op != OEq || c.args[0].isBool || !inField(c.args[0]) || !inField(c.args[1]) {
				continue
			}
			at := map[*Term]bool{}
			collectAtoms(c, at)
			last := -1
			for t := range at {
				if k, ok := rank[t]; ok && k > last {
					last = k
				}
			}
			if last >= 0 {
				byLast[last] = append(byLast[last], c)
			}
		}
	}
	for k, i := range g.solve {
		done := false
		for _, c := range byLast[k] {
			d := intern(Mod(Sub(c.args[0], c.args[1]), rMod))
			var f [3]*big.Int
			ok := true
			for j := range f {
				e := envOf(in, v)
				e[in[i]] = big.NewInt(int64(j))
				x, err := e.Eval(d)
				if err != nil {
					ok = false
					break
				}
				f[j] = x
			}
			if !ok {
				continue
			}
			a := new(big.Int).Sub(f[1], f[0])
			a.Mod(a, rMod)
			l := new(big.Int).Sub(f[2], f[1])
			l.Mod(l, rMod)
			if a.Sign() == 0 || a.Cmp(l) != 0 {
				continue
			}
			x := a.ModInverse(a, rMod)
			x.Mul(x, f[0])
			x.Neg(x)
			v[i] = x.Mod(x, rMod)
			done = true
			break
		}
		if !done {
			v[i] = randBelow(ck.rng, rMod)
		}
	}
	return v
}

func (ck *Check) isKnownKey(key string) bool {
	for _, k := range ck.kfs {
		if k.prop == ck.id && k.key == key {
			return true
		}
	}
	return false
}

// perturbHints runs the real code with systematically altered hint answers.
func (ck *Check) perturbHints(g *Gadget, in []*Term, tries [][]*big.Int) bool {
	for ti, v := range tries {
		if ti >= 4 {
			break
		}
		base := ck.harness.run(ck.code(g), []*Case{{Target: g.key, Args: strs(v), Record: true}})
		if len(base) == 0 || base[0] == nil {
			continue
		}
		var cases []*Case
		for ci, call := range base[0].Calls {
			for _, alt := range g.hintHook(call.Name, parseBigs(call.In), parseBigs(call.Out)) {
				if alt == nil {
					continue
				}
				cases = append(cases, &Case{Target: g.key, Args: strs(v), Hints: []HintOverride{{Index: ci, Out: strs(alt)}}})
			}
		}
		for i, r := range ck.harness.run(ck.code(g), cases) {
			if ck.judgeReal(g, in, v, cases[i], r, true) {
				return true
			}
		}
	}
	return false
}

func parseBigs(s []string) []*big.Int {
	var o []*big.Int
	for _, x := range s {
		b, _ := new(big.Int).SetString(x, 10)
		o = append(o, b)
	}
	return o
}

func envWith(in []*Term, v []*big.Int, model map[*Term]*big.Int) Env {
	e := Env{}
	for t, x := range model {
		if t.op == OVar || (t.op == OBVar && len(t.args) == 0) {
			e[t] = x
		}
	}
	for i := range in {
		e[in[i]] = v[i]
	}
	return e
}

// bound is what the path condition makes of an input.
func (p pending) bound(t *Term) *Term {
	if p.path == nil {
		return t
	}
	return p.path.run.sub.apply(t)
}

// fromModel reads input values, replacing curve points by real ones.
func (ck *Check) fromModel(g *Gadget, in []*Term, p pending) []*big.Int {
	v := ck.draw(g)
	e := Env{}
	for t, x := range p.model {
		if t.op == OVar || (t.op == OBVar && len(t.args) == 0) {
			e[t] = x
		}
	}
	for i := range in {
		if g.ins[i].kind == KPointX || g.ins[i].kind == KPointY {
			continue
		}
		if x, ok := e[in[i]]; ok {
			v[i] = x
		} else if t := p.bound(in[i]); t != in[i] { // fixed by the path
			if x, err := e.Eval(t); err == nil {
				v[i] = x
			}
		}
	}
	return v
}

// hintsFrom evaluates the adversarial hint answers of a path.
func (ck *Check) hintsFrom(p pending, e Env) ([]HintOverride, bool) {
	var out []HintOverride
	for i, h := range p.path.run.hints {
		o := HintOverride{Index: i}
		for _, t := range h.outputs {
			s := p.path.m.simp(t)
			vs := map[*Term]bool{}
			collectVars(s, vs)
			for v := range vs {
				if _, ok := e[v]; !ok {
					e[v] = ck.rangeVal(v)
				}
			}
			x, err := e.Eval(s)
			if err != nil {
				return nil, false
			}
			o.Out = append(o.Out, x.String())
		}
		out = append(out, o)
	}
	return out, true
}

func (ck *Check) rangeVal(v *Term) *big.Int {
	if v.lo != nil && v.hi != nil {
		d := new(big.Int).Sub(v.hi, v.lo)
		return new(big.Int).Add(v.lo, randBelow(ck.rng, d.Add(d, big1)))
	}
	return big.NewInt(0)
}

func (ck *Check) code(g *Gadget) map[string]string { return map[string]string{g.key: g.goCode} }
