package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"
)

// Prover decides facts |- goal for one path.
type Prover struct {
	ck    *Check
	facts []*Term
	sub   *Subst
	pc    *PolyCtx
	nzP   []*Poly // polynomials known to be non-zero modulo r
	tmo   time.Duration
	why   string
	model map[*Term]*big.Int
	lcs   map[string][]*LC // combinations the facts mention, by their points
	same  map[*LC]*LC      // combinations proved equal to one of those
}

func (ck *Check) prover(facts []*Term, sub *Subst) *Prover {
	p := &Prover{ck: ck, sub: sub, tmo: ck.tmo}
	if sub == nil {
		p.sub = newSubst()
	}
	for _, f := range facts {
		p.addFact(f)
	}
	return p
}

func (p *Prover) addFact(f *Term) {
	g := p.sub.apply(f)
	if g == trueT {
		return
	}
	if g.op == OAnd {
		for _, a := range g.args {
			p.addFact(a)
		}
		return
	}
	p.facts = append(p.facts, g)
}

// lcKey names the points of a combination.
func lcKey(l *LC) string {
	var sb strings.Builder
	for _, e := range l.ents {
		fmt.Fprintf(&sb, "%d,", e.b.id)
	}
	return sb.String()
}

func collectLCs(t *Term, seen map[*Term]bool, f func(l *LC)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		collectLCs(intern(a), seen, f)
	}
	if t.lc != nil {
		if t.op == OPX || t.op == OPY {
			f(t.lc)
		}
		for _, e := range t.lc.ents {
			collectLCs(intern(e.c), seen, f)
			collectLCs(e.b.x, seen, f)
			collectLCs(e.b.y, seen, f)
		}
	}
}

// lcSame shows that two combinations of the same points have equal coefficients.
func (p *Prover) lcSame(a, b *LC) bool {
	for i := range a.ents {
		x, y := intern(Mod(a.ents[i].c, rMod)), intern(Mod(b.ents[i].c, rMod))
		if x != y && !p.proveEqMod(x, y) {
			return false
		}
	}
	return true
}

// align rewrites points into provably equal ones that came earlier.
func (p *Prover) align(c *Term) *Term {
	if p.lcs == nil {
		p.lcs, p.same = map[string][]*LC{}, map[*LC]*LC{}
		for i, f := range p.facts {
			p.facts[i] = p.align1(f, true)
		}
		p.pc, p.nzP = nil, nil
	}
	return p.align1(c, false)
}

func (p *Prover) align1(c *Term, isFact bool) *Term {
	sb, n := newSubst(), 0
	collectLCs(intern(c), map[*Term]bool{}, func(l *LC) {
		if len(l.ents) == 0 {
			return
		}
		r, ok := p.same[l]
		if !ok {
			for _, f := range p.lcs[lcKey(l)] {
				if p.lcSame(l, f) {
					r = f
					break
				}
			}
			if r == nil && isFact {
				r = l
				p.lcs[lcKey(l)] = append(p.lcs[lcKey(l)], l)
			}
			p.same[l] = r
		}
		if r != nil && r != l {
			sb.bind(lcX(l), lcX(r))
			sb.bind(lcY(l), lcY(r))
			n++
		}
	})
	if n == 0 {
		return c
	}
	return p.sub.apply(sb.apply(c))
}

func (p *Prover) reset() { p.lcs, p.same = nil, nil; p.pc = nil; p.nzP = nil }

func (p *Prover) polys() *PolyCtx {
	if p.pc != nil {
		return p.pc
	}
	pc := newPolyCtx(rMod)
	p.pc = pc
	p.nzP = nil
	for _, f := range p.facts {
		if f.op == ONot && f.args[0].op == OEq {
			e := f.args[0]
			d := intern(Sub(e.args[0], e.args[1]))
			if inField(e.args[0]) && inField(e.args[1]) {
				if q, ok := safePoly(pc, d); ok && len(q.c) > 0 {
					p.nzP = append(p.nzP, pc.clearInv(q))
				}
			}
		}
	}
	return pc
}

func inField(t *Term) bool {
	return t.lo != nil && t.hi != nil && t.lo.Sign() >= 0 && t.hi.Cmp(rMod) < 0
}

func monic(pc *PolyCtx, q *Poly) string {
	if len(q.c) == 0 {
		return "0"
	}
	il := new(big.Int).ModInverse(q.c[q.lead()], pc.mod)
	var ks []string
	for k, c := range q.c {
		v := new(big.Int).Mul(c, il)
		v.Mod(v, pc.mod)
		ks = append(ks, k+":"+v.String())
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// knownNonZero reports whether q is a non-zero constant or a product of known
// non-zero polynomials.
func (p *Prover) knownNonZero(q *Poly) bool {
	if len(q.c) == 0 {
		return false
	}
	if len(q.c) == 1 {
		mo := q.m[q.lead()]
		all := true
		for _, a := range mo.atom {
			if !p.atomNonZero(a) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	s := monic(p.pc, q)
	for _, n := range p.nzP {
		if monic(p.pc, n) == s {
			return true
		}
	}
	return false
}

func (p *Prover) atomNonZero(a *Term) bool {
	if a.lo != nil && a.lo.Sign() > 0 && a.hi != nil && a.hi.Cmp(rMod) < 0 {
		return true
	}
	if q, ok := p.pc.inv[a]; ok {
		return p.knownNonZero(q)
	}
	s := monic(p.pc, p.pc.atom(a))
	for _, n := range p.nzP {
		if monic(p.pc, n) == s {
			return true
		}
		if len(n.c) == 1 { // product known non-zero
			for _, b := range n.m[n.lead()].atom {
				if b == a {
					return true
				}
			}
		}
	}
	return false
}

// Prove shows facts |- goal. It returns Unsat (holds), Sat (a candidate
// counterexample is in p.model) or Unknown.
func (p *Prover) Prove(goal *Term) Verdict {
	p.why = ""
	p.model = nil
	var cs []*Term
	g := p.sub.apply(goal)
	if g.op == OAnd {
		cs = g.args
	} else {
		cs = []*Term{g}
	}
	res := Unsat
	tmo, unk := p.tmo, 0
	defer func() { p.tmo = tmo }()
	for _, c := range cs {
		var v Verdict
		if a := p.align(c); a != c {
			v = p.prove1(a)
		}
		if v != Unsat {
			v = p.prove1(c)
		}
		if v != Unsat && os.Getenv("VERIF_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "#conj", v, c.str(6))
		}
		if v == Sat {
			return Sat
		}
		if v == Unknown {
			res = Unknown
			p.why = "undecided: " + c.String()
			if unk++; unk >= 12 {
				break
			} else if unk >= 3 && p.tmo > time.Second { // already lost; only a counterexample matters now
				p.tmo = time.Second
			}
		}
	}
	return res
}

func (p *Prover) prove1(c *Term) Verdict {
	// quick syntactic facts still go through the solver as propositional queries
	if c == trueT || p.factHolds(c) {
		r := p.ck.Solve([]*Term{Not(c), p.conj(c)}, p.tmo)
		if r.v == Unsat {
			return Unsat
		}
	}
	if c.op == OBVar && len(c.args) > 0 && p.samePred(c) {
		return Unsat
	}
	if c.op == OEq && !c.args[0].isBool {
		a, b := c.args[0], c.args[1]
		if v := p.pointEq(a, b); v == Unsat {
			return v
		}
		if inField(a) && inField(b) && (p.proveEqMod(a, b) || p.scaledFact(a, b, false)) {
			return Unsat
		}
	}
	if c.op == ONot && c.args[0].op == OEq {
		if a, b := c.args[0].args[0], c.args[0].args[1]; !a.isBool && inField(a) && inField(b) && p.scaledFact(a, b, true) {
			return Unsat
		}
	}
	fs := p.cone(c)
	asserts := append(append([]*Term(nil), fs...), Not(c))
	r := p.ck.Solve(asserts, p.tmo)
	if r.v == Sat {
		p.model = r.model
		p.why = "counterexample to " + c.String()
	}
	return r.v
}

// samePred shows a predicate from a recorded one whose arguments are equal.
func (p *Prover) samePred(c *Term) bool {
	for _, f := range p.facts {
		if f.op != OBVar || f.name != c.name || len(f.args) != len(c.args) {
			continue
		}
		ok := true
		for i := 0; ok && i < len(c.args); i++ {
			ok = p.sameArg(c, f, &i)
		}
		if ok {
			return true
		}
	}
	return false
}

// sameArg compares argument i; two that are a point's coordinates are compared
// as a point.
func (p *Prover) sameArg(c, f *Term, i *int) bool {
	a, b := c.args[*i], f.args[*i]
	if a == b {
		return true
	}
	if *i+1 < len(c.args) {
		l, m := pointOf(a, c.args[*i+1]), pointOf(b, f.args[*i+1])
		if len(l.ents) > 0 && lcKey(l) == lcKey(m) && p.lcSame(l, m) {
			*i++
			return true
		}
	}
	return p.pointEq(a, b) == Unsat
}

// scaledFact shows a = b (or a != b) modulo r when a recorded (dis)equality has
// the same difference up to a constant factor.
func (p *Prover) scaledFact(a, b *Term, neg bool) bool {
	pc := p.polys()
	q, ok := safePoly(pc, intern(Sub(a, b)))
	if !ok || len(q.c) == 0 {
		return false
	}
	key := monic(pc, q)
	for _, f := range p.facts {
		e := f
		if neg {
			if f.op != ONot {
				continue
			}
			e = f.args[0]
		}
		if e.op != OEq || e.args[0].isBool || !inField(e.args[0]) || !inField(e.args[1]) {
			continue
		}
		d := intern(Sub(e.args[0], e.args[1]))
		qf, ok := safePoly(pc, d)
		if !ok || len(qf.c) != len(q.c) || monic(pc, qf) != key {
			continue
		}
		k := new(big.Int).ModInverse(qf.c[q.lead()], rMod)
		k.Mul(k, q.c[q.lead()])
		k.Mod(k, rMod)
		if k.Cmp(new(big.Int).Rsh(rMod, 1)) > 0 {
			k.Sub(k, rMod)
		}
		return p.ck.certEq(intern(Mod(Sub(a, b), rMod)), intern(Mod(Mul(C(k), d), rMod)))
	}
	return false
}

func (p *Prover) factHolds(c *Term) bool {
	for _, f := range p.facts {
		if f == c {
			return true
		}
	}
	return false
}

func (p *Prover) conj(c *Term) *Term {
	if p.factHolds(c) {
		return c
	}
	return trueT
}

// cone selects the facts sharing variables with the goal, transitively.
func (p *Prover) cone(c *Term) []*Term {
	if c == falseT { // the path has to be impossible: everything known matters
		return p.facts
	}
	vs := map[*Term]bool{}
	collectAtoms(c, vs)
	fv := make([]map[*Term]bool, len(p.facts))
	for i, f := range p.facts {
		fv[i] = map[*Term]bool{}
		collectAtoms(f, fv[i])
	}
	used := make([]bool, len(p.facts))
	var out []*Term
	for ch := true; ch; {
		ch = false
		for i, f := range p.facts {
			if used[i] {
				continue
			}
			hit := len(fv[i]) == 0
			for v := range fv[i] {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for v := range fv[i] {
					vs[v] = true
				}
				out = append(out, f)
			}
		}
	}
	return out
}

// collectAtoms gathers variables and uninterpreted applications.
func collectAtoms(t *Term, into map[*Term]bool) {
	seen := map[*Term]bool{}
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case OVar, OUF, OBVar, OPX, OPY:
			into[t] = true
		}
		for _, a := range t.args {
			f(intern(a))
		}
		if t.lc != nil {
			for _, e := range t.lc.ents {
				f(intern(e.c))
				f(intern(e.b.x))
				f(intern(e.b.y))
			}
		}
	}
	f(intern(t))
}

// pointEq proves equality of coordinates of two group elements by equality of
// their formal combinations.
func (p *Prover) pointEq(a, b *Term) Verdict {
	if a.op == OMod && b.op == OMod && a.k.Cmp(b.k) == 0 {
		a, b = a.args[0], b.args[0]
	}
	if (a.op != OPX && a.op != OPY) || a.op != b.op {
		return Unknown
	}
	d := lcAdd(a.lc, lcNeg(b.lc))
	for _, e := range d.ents {
		if e.c == nil {
			return Unknown
		}
		if p.prove1(Eq(intern(Mod(e.c, rMod)), CI(0))) != Unsat {
			return Unknown
		}
	}
	return Unsat
}

// proveEqMod shows a = b modulo r by polynomial normal forms, with a solver
// checked certificate, using facts that define auxiliary values.
func (p *Prover) proveEqMod(a, b *Term) bool {
	pc := p.polys()
	qa, ok1 := safePoly(pc, a)
	qb, ok2 := safePoly(pc, b)
	if !ok1 || !ok2 {
		return false
	}
	d0 := qa.add(qb, big.NewInt(-1))
	if len(d0.c) == 0 && len(pc.inv) == 0 {
		return p.ck.certEq(a, b)
	}
	d := pc.reduce(d0)
	if len(d.c) == 0 {
		if p.ck.certEq(a, b) {
			return true
		}
		// equal only because inverses cancel: what is inverted must be non-zero
		for _, q := range []*Poly{qa, qb} {
			for k := range q.c {
				for _, at := range q.m[k].atom {
					if i, is := pc.inv[at]; is && !p.knownNonZero(i) {
						return false
					}
				}
			}
		}
		return p.ck.lemmaInv()
	}
	if len(pc.inv) > 0 {
		ok := true
		func() {
			defer func() {
				if x := recover(); x != nil {
					ok = false
				}
			}()
			d2 := pc.clearInv(d)
			if len(d2.c) != 0 {
				ok = false
			}
		}()
		if ok {
			// every inverted value that occurs must be non-zero
			for k := range d.c {
				for _, at := range d.m[k].atom {
					if q, is := pc.inv[at]; is && !p.knownNonZero(q) {
						return false
					}
				}
			}
			return p.ck.lemmaInv()
		}
	}
	return false
}

// SolveAux binds variables v (already-chosen names, e.g. prover-supplied
// quotients) from facts that are linear in them: A*v + B = 0 with A known
// non-zero gives v = -B/A. Returns the bindings made.
func (p *Prover) SolveAux(isAux func(t *Term) bool) int {
	n := 0
	for round := 0; round < 200; round++ {
		pc := p.polys()
		done := true
		for fi, f := range p.facts {
			if f.op != OEq || f.args[0].isBool || !inField(f.args[0]) || !inField(f.args[1]) {
				continue
			}
			q, ok := safePoly(pc, intern(Sub(f.args[0], f.args[1])))
			if !ok {
				continue
			}
			vs := map[*Term]bool{}
			for k := range q.c {
				for _, at := range q.m[k].atom {
					if at.op == OVar && isAux(at) {
						vs[at] = true
					}
				}
			}
			var cand []*Term
			for v := range vs {
				cand = append(cand, v)
			}
			sortTermsByName(cand)
			for _, v := range cand {
				A, B, ok := q.linearIn(v)
				if !ok || !p.knownNonZero(pc.clearInv(A)) {
					continue
				}
				var val *Term
				if len(A.c) == 1 && len(A.m[A.lead()].atom) == 0 {
					il := new(big.Int).ModInverse(A.c[A.lead()], rMod)
					val = Mod(Mul(B.toTerm(), C(il), CI(-1)), rMod)
				} else {
					val = Mod(Mul(Neg(B.toTerm()), Inv(A.toTerm(), rMod)), rMod)
				}
				val = intern(val)
				if occurs(v, val) {
					continue
				}
				p.ck.lemmaInv()
				p.sub.bind(v, val)
				fs := append([]*Term(nil), p.facts[:fi]...)
				fs = append(fs, p.facts[fi+1:]...)
				p.facts = nil
				for _, g := range fs {
					p.addFact(g)
				}
				p.reset()
				n++
				done = false
				break
			}
			if !done {
				break
			}
		}
		if done {
			break
		}
	}
	return n
}

// lemmaInv checks, once, the algebraic facts behind quotient elimination:
// A*v+B=0 and A*I=1 give v=-B*I (an identity over the integers).
func (ck *Check) lemmaInv() bool {
	if ck.lemma != Unknown {
		return ck.lemma == Unsat
	}
	// v + B*I = I*(A*v+B) - v*(A*I-1)
	scr := "(declare-const A Int)(declare-const B Int)(declare-const I Int)(declare-const v Int)\n" +
		"(assert (not (= (+ v (* B I)) (- (* I (+ (* A v) B)) (* v (- (* A I) 1))))))\n"
	r := runSolver(somSolver, scr, newEnc(), 20*time.Second, false)
	ck.count(r.v, r.solver, r.ms)
	ck.stats.Lemmas++
	ck.lemma = r.v
	return r.v == Unsat
}

// lemmaMod checks, once, that reductions inside sums and products do not matter
// modulo r: with x = q*r+m and y = s*r+n, x+y and x*y differ from m+n and m*n by
// an explicit multiple of r.
func (ck *Check) lemmaMod() bool {
	if ck.lemmaM != Unknown {
		return ck.lemmaM == Unsat
	}
	scr := "(declare-const q Int)(declare-const m Int)(declare-const s Int)(declare-const n Int)(declare-const r Int)\n" +
		"(assert (not (and (= (- (+ (* q r) m (* s r) n) (+ m n)) (* r (+ q s)))" +
		" (= (- (* (+ (* q r) m) (+ (* s r) n)) (* m n)) (* r (+ (* q s r) (* q n) (* m s)))))))\n"
	r := runSolver(somSolver, scr, newEnc(), 20*time.Second, false)
	ck.count(r.v, r.solver, r.ms)
	ck.stats.Lemmas++
	ck.lemmaM = r.v
	if r.v != Unsat && os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "#lemmaMod", r.v)
	}
	return r.v == Unsat
}

// certEq asks the solver to confirm a = b (mod r): with the inner reductions
// dropped (lemmaMod) the difference of the two sides is shown to be r times an
// explicit integer polynomial.
func (ck *Check) certEq(a, b *Term) bool {
	if a == b {
		r := ck.Solve([]*Term{Not(Eq(a, b))}, ck.tmo)
		return r.v == Unsat
	}
	if !ck.lemmaMod() {
		return false
	}
	mm := map[*Term]*Term{}
	var lift func(t *Term) *Term
	lift = func(t *Term) *Term {
		t = intern(t)
		if r, ok := mm[t]; ok {
			return r
		}
		var r *Term
		switch {
		case t.op == OMod && t.k.Cmp(rMod) == 0:
			r = lift(t.args[0])
		case t.op == OAdd:
			var xs []*Term
			for _, x := range t.args {
				xs = append(xs, lift(x))
			}
			r = rawAdd(xs...)
		case t.op == OMul:
			var xs []*Term
			for _, x := range t.args {
				xs = append(xs, lift(x))
			}
			r = rawMul(xs...)
		case t.op == OPow && t.n <= 16:
			var xs []*Term
			l := lift(t.args[0])
			for i := 0; i < t.n; i++ {
				xs = append(xs, l)
			}
			r = rawMul(xs...)
		case t.op == OConst:
			r = t
		default:
			r = Var(fmt.Sprintf("a?%d", t.id), nil, nil)
		}
		mm[t] = r
		return r
	}
	la, lb := lift(a), lift(b)
	pc := newPolyCtx(nil)
	pc.limit = 200_000
	pa, ok1 := safePoly(pc, la)
	pb, ok2 := safePoly(pc, lb)
	if !ok1 || !ok2 {
		ck.note("certificate too large for one identity; accepted by normal form only")
		ck.stats.NFOnly++
		return true
	}
	d := pa.add(pb, big.NewInt(-1))
	k := newPoly()
	for key, c := range d.c {
		qq, rr := new(big.Int).QuoRem(c, rMod, new(big.Int))
		if rr.Sign() != 0 {
			ck.note("certificate not integral")
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "#nonint", len(d.c), d.m[key].atom, d.m[key].exp, c)
			}
			return false
		}
		k.addTerm(d.m[key], qq)
	}
	e := newEnc()
	A, B, K := e.enc(la), e.enc(lb), e.enc(k.rawTerm())
	scr := e.script(nil) + fmt.Sprintf("(assert (not (= (- %s %s) (* %s %s))))\n", A, B, rMod, K)
	r := runSolver(somSolver, scr, e, 120*time.Second, false)
	ck.count(r.v, r.solver, r.ms)
	if f := os.Getenv("VERIF_CERT"); f != "" && r.v != Unsat {
		os.WriteFile(f, []byte(scr), 0o644)
	}
	if r.v != Unsat {
		ck.note("solver did not confirm a normal-form certificate (" + r.v.String() + ")")
	}
	return r.v == Unsat
}

// rawTerm is the polynomial with its powers written out as products.
func (p *Poly) rawTerm() *Term {
	var ks []string
	for k := range p.c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sum []*Term
	for _, k := range ks {
		f := []*Term{C(p.c[k])}
		for i, a := range p.m[k].atom {
			for j := 0; j < p.m[k].exp[i]; j++ {
				f = append(f, a)
			}
		}
		sum = append(sum, rawMul(f...))
	}
	if len(sum) == 0 {
		return CI(0)
	}
	return rawAdd(sum...)
}

func rawAdd(xs ...*Term) *Term {
	if len(xs) == 1 {
		return xs[0]
	}
	return intern(&Term{op: OAdd, args: xs})
}
func rawMul(xs ...*Term) *Term {
	if len(xs) == 1 {
		return xs[0]
	}
	return intern(&Term{op: OMul, args: xs})
}
