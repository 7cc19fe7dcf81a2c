package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

type Verdict int

const (
	Unknown Verdict = iota
	Unsat
	Sat
)

func (v Verdict) String() string { return [...]string{"unknown", "unsat", "sat"}[v] }

// smtEnc renders terms as SMT-LIB 2 (integers).
type smtEnc struct {
	decl   strings.Builder
	defs   strings.Builder
	name   map[*Term]string
	funs   map[string]bool
	side   []string
	vars   []*Term // atoms to read back
	absMul bool
	memo   map[string]bool
}

func newEnc() *smtEnc {
	return &smtEnc{name: map[*Term]string{}, funs: map[string]bool{}, memo: map[string]bool{}}
}

func smtInt(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

var reBadName = regexp.MustCompile(`[^A-Za-z0-9_!.]`)

func smtName(s string) string { return "|" + strings.ReplaceAll(s, "|", "/") + "|" }

func (e *smtEnc) atom(t *Term, nm string) string {
	fmt.Fprintf(&e.decl, "(declare-const %s Int)\n", nm)
	if t.lo != nil {
		e.side = append(e.side, fmt.Sprintf("(<= %s %s)", smtInt(t.lo), nm))
	}
	if t.hi != nil {
		e.side = append(e.side, fmt.Sprintf("(<= %s %s)", nm, smtInt(t.hi)))
	}
	e.vars = append(e.vars, t)
	return nm
}

func (e *smtEnc) enc(t *Term) string {
	t = intern(t)
	if n, ok := e.name[t]; ok {
		return n
	}
	var s string
	args := func() string {
		var p []string
		for _, a := range t.args {
			p = append(p, e.enc(a))
		}
		return strings.Join(p, " ")
	}
	leaf := false
	switch t.op {
	case OConst:
		s, leaf = smtInt(t.k), true
	case OVar:
		s, leaf = e.atom(t, smtName(t.name)), true
	case OAdd:
		s = "(+ " + args() + ")"
	case OMul:
		if e.absMul && !linearMul(t) {
			s, leaf = e.atom(t, fmt.Sprintf("mul%d", t.id)), true
		} else {
			s = "(* " + args() + ")"
		}
	case OPow:
		if t.n <= 6 && !e.absMul {
			a := e.enc(t.args[0])
			s = "(*" + strings.Repeat(" "+a, t.n) + ")"
		} else {
			s, leaf = e.atom(t, fmt.Sprintf("pow%d", t.id)), true
		}
	case OMod:
		s = "(mod " + args() + " " + t.k.String() + ")"
	case ODiv:
		s = "(div " + args() + " " + t.k.String() + ")"
	case OExt:
		a := e.enc(t.args[0])
		s = a
		if t.n > 0 {
			s = "(div " + s + " " + pow2(t.n).String() + ")"
		}
		if t.args[0].hi == nil || t.args[0].hi.BitLen() > t.n+t.w {
			s = "(mod " + s + " " + pow2(t.w).String() + ")"
		}
	case OCat:
		var p []string
		off := 0
		for i, a := range t.args {
			x := e.enc(a)
			if off > 0 {
				x = "(* " + x + " " + pow2(off).String() + ")"
			}
			p = append(p, x)
			off += t.ws[i]
		}
		s = "(+ " + strings.Join(p, " ") + ")"
	case OIte:
		s = "(ite " + args() + ")"
	case OUF:
		fn := smtName("uf/" + t.name)
		if t.ws != nil {
			fn = smtName(strings.ReplaceAll(fmt.Sprintf("uf/%s%v", t.name, t.ws), " ", ","))
		}
		if !e.funs[fn] {
			e.funs[fn] = true
			fmt.Fprintf(&e.decl, "(declare-fun %s (%s) Int)\n", fn, strings.TrimSpace(strings.Repeat("Int ", len(t.args))))
		}
		if len(t.args) == 0 {
			s = fn
		} else {
			s = "(" + fn + " " + args() + ")"
		}
		nm := fmt.Sprintf("u%d", t.id)
		fmt.Fprintf(&e.defs, "(define-fun %s () Int %s)\n", nm, s)
		if t.lo != nil {
			e.side = append(e.side, fmt.Sprintf("(<= %s %s)", smtInt(t.lo), nm))
		}
		if t.hi != nil {
			e.side = append(e.side, fmt.Sprintf("(<= %s %s)", nm, smtInt(t.hi)))
		}
		e.vars = append(e.vars, t)
		e.name[t] = nm
		return nm
	case OPX:
		s, leaf = e.atom(t, fmt.Sprintf("px%d", t.lc.id)), true
	case OPY:
		s, leaf = e.atom(t, fmt.Sprintf("py%d", t.lc.id)), true
	case OInv:
		// defining property of the inverse, with an explicit quotient
		nm := fmt.Sprintf("inv%d", t.id)
		e.atom(t, nm)
		e.name[t] = nm
		a := e.enc(t.args[0])
		e.side = append(e.side, fmt.Sprintf("(=> (not (= (mod %s %s) 0)) (= (mod (* %s %s) %s) 1))", a, t.k, a, nm, t.k))
		return nm
	case OBool:
		s, leaf = "false", true
		if t.n != 0 {
			s = "true"
		}
	case OBVar:
		fn := smtName("p/" + t.name)
		if !e.funs[fn] {
			e.funs[fn] = true
			var so []string
			for _, a := range t.args {
				if a.isBool {
					so = append(so, "Bool")
				} else {
					so = append(so, "Int")
				}
			}
			fmt.Fprintf(&e.decl, "(declare-fun %s (%s) Bool)\n", fn, strings.Join(so, " "))
		}
		if len(t.args) == 0 {
			s, leaf = fn, true
			e.vars = append(e.vars, t)
		} else {
			s = "(" + fn + " " + args() + ")"
			e.vars = append(e.vars, t)
		}
	case OEq:
		s = "(= " + args() + ")"
	case OLe:
		s = "(<= " + args() + ")"
	case ONot:
		s = "(not " + args() + ")"
	case OAnd:
		s = "(and " + args() + ")"
	case OOr:
		s = "(or " + args() + ")"
	}
	if leaf {
		e.name[t] = s
		return s
	}
	nm := fmt.Sprintf("d%d", t.id)
	so := "Int"
	if t.isBool {
		so = "Bool"
	}
	fmt.Fprintf(&e.defs, "(define-fun %s () %s %s)\n", nm, so, s)
	e.name[t] = nm
	return nm
}

func linearMul(t *Term) bool {
	return len(t.args) == 2 && t.args[1].op == OConst
}

func (e *smtEnc) script(asserts []*Term) string {
	var body []string
	for _, a := range asserts {
		body = append(body, e.enc(a))
	}
	var sb strings.Builder
	sb.WriteString(e.decl.String())
	sb.WriteString(e.defs.String())
	for _, s := range e.side {
		sb.WriteString("(assert " + s + ")\n")
	}
	for _, s := range body {
		sb.WriteString("(assert " + s + ")\n")
	}
	return sb.String()
}

type SolverResult struct {
	v      Verdict
	model  map[*Term]*big.Int
	solver string
	ms     float64
	err    string
}

var solverMu sync.Mutex

type solverCmd struct {
	name string
	args []string
	pre  string
	chk  string
}

var solverSet = []solverCmd{
	{"z3-new", []string{"z3-new", "-in", "-smt2"}, "", "(check-sat)"},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--produce-models", "--incremental"}, "(set-logic ALL)\n", "(check-sat)"},
	{"z3", []string{"z3", "-in", "-smt2"}, "", "(check-sat)"},
}

var somSolver = solverCmd{"z3-new(som)", []string{"z3-new", "-in", "-smt2"}, "", "(check-sat-using (then (using-params simplify :som true :som_blowup 1000000000 :flat true :local_ctx false) smt))"}

func runSolver(sc solverCmd, script string, e *smtEnc, timeout time.Duration, wantModel bool) SolverResult {
	return runSolverCtx(context.Background(), sc, script, e, timeout, wantModel)
}

func runSolverCtx(parent context.Context, sc solverCmd, script string, e *smtEnc, timeout time.Duration, wantModel bool) SolverResult {
	t0 := time.Now()
	var in bytes.Buffer
	in.WriteString(sc.pre)
	in.WriteString(script)
	in.WriteString(sc.chk + "\n")
	var names []string
	if wantModel && len(e.vars) > 0 {
		for _, v := range e.vars {
			names = append(names, e.name[v])
		}
		in.WriteString("(get-value (" + strings.Join(names, " ") + "))\n")
	}
	ctx, cancel := context.WithTimeout(parent, timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, sc.args[0], sc.args[1:]...)
	cmd.Stdin = &in
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	res := SolverResult{solver: sc.name, ms: float64(time.Since(t0).Microseconds()) / 1000}
	txt := out.String()
	first := strings.TrimSpace(txt)
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = strings.TrimSpace(first[:i])
	}
	switch first {
	case "unsat":
		res.v = Unsat
	case "sat":
		res.v = Sat
		if wantModel {
			res.model = parseModel(txt, e)
		}
	default:
		if strings.Contains(txt, "(error") || strings.Contains(txt, "rror") {
			res.err = first
		}
	}
	return res
}

var reVal = regexp.MustCompile(`\((\|[^|]*\||[A-Za-z0-9_!.]+)\s+(\(- \d+\)|-?\d+|true|false)\)`)

func parseModel(txt string, e *smtEnc) map[*Term]*big.Int {
	by := map[string]*Term{}
	for _, v := range e.vars {
		by[e.name[v]] = v
	}
	m := map[*Term]*big.Int{}
	for _, g := range reVal.FindAllStringSubmatch(txt, -1) {
		t, ok := by[g[1]]
		if !ok {
			continue
		}
		s := g[2]
		switch s {
		case "true":
			m[t] = big.NewInt(1)
			continue
		case "false":
			m[t] = big.NewInt(0)
			continue
		}
		neg := false
		if strings.HasPrefix(s, "(- ") {
			neg = true
			s = strings.TrimSuffix(strings.TrimPrefix(s, "(- "), ")")
		}
		v, _ := new(big.Int).SetString(s, 10)
		if neg {
			v.Neg(v)
		}
		m[t] = v
	}
	return m
}

// Solve asks whether the conjunction is satisfiable; the second and third
// solver join when the first takes long.
func (ck *Check) Solve(asserts []*Term, timeout time.Duration) SolverResult {
	if ck.over() {
		ck.note("query skipped: time limit")
		return SolverResult{v: Unknown}
	}
	t0 := time.Now()
	e := newEnc()
	scr := e.script(asserts)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan SolverResult, len(solverSet))
	run := func(sc solverCmd) { ch <- runSolverCtx(ctx, sc, scr, e, timeout, true) }
	go run(solverSet[0])
	started, done := 1, 0
	timer := time.NewTimer(1500 * time.Millisecond)
	defer timer.Stop()
	last := SolverResult{}
	for done < len(solverSet) {
		if started == done {
			go run(solverSet[started])
			started++
		}
		var r SolverResult
		select {
		case <-timer.C:
			for ; started < len(solverSet); started++ {
				go run(solverSet[started])
			}
			continue
		case r = <-ch:
		}
		done++
		last = r
		if r.v != Unknown {
			break
		}
	}
	cancel()
	if last.v == Unknown && os.Getenv("VERIF_DUMP") != "" {
		os.WriteFile(fmt.Sprintf("/tmp/q%d.smt2", ck.stats.Queries), []byte(scr), 0644)
	}
	ck.count(last.v, last.solver, float64(time.Since(t0).Microseconds())/1000)
	return last
}

func (ck *Check) count(v Verdict, solver string, ms float64) {
	s := ck.stats
	s.Queries++
	s.SolverMS += ms
	switch v {
	case Unsat:
		s.Unsat++
		s.Solvers[solver]++
	case Sat:
		s.Sat++
		s.Solvers[solver]++
	default:
		s.Unknown++
	}
}

func sortTermsByName(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].name < ts[j].name })
}
