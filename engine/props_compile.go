package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- circuits are built without looking at witness values (C32)

// compileEntry is a circuit around a function of the package: body builds its
// constraints from the circuit variables V.
type compileEntry struct {
	key     string
	n       int    // number of variables
	body    string // of func(api frontend.API, V []frontend.Variable) error
	imports []string
	circuit string // the circuit to compile for real, if it is not just the body
}

const (
	emuImports = `"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
"github.com/consensys/gnark/std/math/emulated"`
)

func compileEntries() []compileEntry {
	e := func(key string, n int, body string) compileEntry {
		return compileEntry{key: key, n: n, body: body}
	}
	use := func(call string) string { return "api.AssertIsEqual(" + call + ", V[0]); return nil" }
	pt2 := "p, err := %s; if err != nil { return err }; api.AssertIsEqual(p[0], V[0]); api.AssertIsEqual(p[1], V[1]); return nil"
	proof := func(k int) string {
		return fmt.Sprintf("var buf [43]frontend.Variable; copy(buf[:], V[:43]); out, err := VerifyProof%d(api, V[43:163], V[163:193], buf); if err != nil { return err }; api.AssertIsEqual(out[10], V[0]); return nil", k)
	}
	u8 := `u := func(vs []frontend.Variable) []uints.U8 { r := make([]uints.U8, len(vs)); for i := range r { r[i].Val = vs[i] }; return r }; `
	u8i := []string{`"github.com/consensys/gnark/std/math/uints"`}
	es := []compileEntry{
		e("fr_add", 3, use("fr_add(api, V[1], V[2])")),
		e("fr_sub", 3, use("fr_sub(api, V[1], V[2])")),
		e("fr_mul", 3, use("fr_mul(api, V[1], V[2])")),
		e("fr_neg", 2, use("fr_neg(api, V[1])")),
		e("fr_mul_neg", 3, use("fr_mul_neg(api, V[1], V[2])")),
		e("fr_div", 4, use("fr_div(api, V[1], V[2], V[3])")),
		e("fr_pow", 2, use("fr_pow(api, V[1], big.NewInt(5))")),
		e("mod", 2, use("mod(api, V[1])")),
		e("PackUInt8Variables", 6, use("PackUInt8Variables(api, V[1:]...)")),
		e("VerifyInstanceHash", 3, "h, err := VerifyInstanceHash(api, V[1:]); if err != nil { return err }; "+use("h")),
		{key: "VerifyKeccak256", n: 36, body: u8 + "return VerifyKeccak256(api, u(V[:4]), u(V[4:]))", imports: u8i},
		{key: "VerifySha256", n: 36, body: u8 + "return VerifySha256(api, u(V[:4]), u(V[4:]))", imports: u8i},
		{key: "Keccak256Circuit", n: 36, body: u8 + "return Keccak256Circuit{InputValue: u(V[:4]), HashValue: u(V[4:])}.Define(api)", imports: u8i},
		{key: "Sha256Circuit", n: 36, body: u8 + "return Sha256Circuit{InputValue: u(V[:4]), HashValue: u(V[4:])}.Define(api)", imports: u8i},
		e("VerifyNotZero", 1, "return VerifyNotZero(api, V[0])"),
		e("VerifyRangeCheck", 3, "return VerifyRangeCheck(api, V[0], V[1], V[2])"),
		e("CheckOnCurveCircuit", 2, "return CheckOnCurveCircuit{X: V[0], Y: V[1]}.Define(api)"),
		e("CheckOnCurveCircuitVar", 2, "return CheckOnCurveCircuitVar{X: V[0], Y: V[1]}.Define(api)"),
		e("CalcVerifyBN256Msm", 5, fmt.Sprintf(pt2, "CalcVerifyBN256Msm(api, V[2], V[3], V[4])")),
		e("CalcVerifyBN256Msm1", 5, fmt.Sprintf(pt2, "CalcVerifyBN256Msm1(api, V[2], V[3], V[4])")),
		e("CalcVerifyBN256Add", 6, fmt.Sprintf(pt2, "CalcVerifyBN256Add(api, V[2], V[3], V[4], V[5])")),
		e("CalcVerifyBN256Add1", 6, fmt.Sprintf(pt2, "CalcVerifyBN256Add1(api, V[2], V[3], V[4], V[5])")),
		e("VerifyBN254ScalarMul", 5, "return (&BN254ScalarMul{Point: [2]frontend.Variable{V[0], V[1]}, Scalar: V[2], Res: [2]frontend.Variable{V[3], V[4]}}).Define(api)"),
		e("VerifyBN254Add", 6, "return (&BN254Add{Point1: [2]frontend.Variable{V[0], V[1]}, Point2: [2]frontend.Variable{V[2], V[3]}, ExpectedRes: [2]frontend.Variable{V[4], V[5]}}).Define(api)"),
		e("ecc_mul", 3, "buf := append([]frontend.Variable(nil), V...); return ecc_mul(api, buf, 0)"),
		e("ecc_mul_add", 5, "buf := append([]frontend.Variable(nil), V...); return ecc_mul_add(api, buf, 0)"),
		e("CalcVerifyCircuitLagrange", 3, "buf := append([]frontend.Variable(nil), V...); return CalcVerifyCircuitLagrange(api, buf)"),
		e("SqueezeChallenge", 8, "buf := append([]frontend.Variable(nil), V...); c, err := SqueezeChallenge(api, buf, 4); if err != nil { return err }; "+use("c")),
		e("GetChallengesShPlonkCircuit", 163, "buf := append([]frontend.Variable(nil), V[:43]...); return GetChallengesShPlonkCircuit(api, buf, V[43:])"),
		e("VerifyProof1", 193, proof(1)), e("VerifyProof2", 193, proof(2)), e("VerifyProof3", 193, proof(3)),
		{key: "AggregatorCircuit", n: 155, body: "return (&AggregatorCircuit{Proof: V[:120], VerifyInst: V[120:121], Aux: V[121:151], TargetInst: V[151:155]}).Define(api)",
			circuit: "&AggregatorCircuit{Proof: make([]frontend.Variable, 120), VerifyInst: make([]frontend.Variable, 1), Aux: make([]frontend.Variable, 30), TargetInst: make([]frontend.Variable, 4)}"},
		{key: "KYC Circuit", n: 12, body: "return (&Circuit{Kyc: KycType{Age: V[0], Country: V[1], Level: V[2], Time: V[3]}, ConditionHash: Conditions{Age: [2]frontend.Variable{V[4], V[5]}, Country: V[6:8], Level: V[8:10], Time: V[10:12]}}).Define(api)",
			circuit: "&Circuit{ConditionHash: Conditions{Country: make([]frontend.Variable, 2), Level: make([]frontend.Variable, 2), Time: make([]frontend.Variable, 2)}}"},
		{key: "MultiScalarMul", n: 1, body: "return (&MultiScalarMul[emulated.BN254Fp, emulated.BN254Fr]{Points: make([]sw_emulated.AffinePoint[emulated.BN254Fp], 2), Scalars: make([]emulated.Element[emulated.BN254Fr], 2)}).Define(api)",
			imports: strings.Split(emuImports, "\n"),
			circuit: "&MultiScalarMul[emulated.BN254Fp, emulated.BN254Fr]{Points: make([]sw_emulated.AffinePoint[emulated.BN254Fp], 2), Scalars: make([]emulated.Element[emulated.BN254Fr], 2)}"},
		{key: "BN256PairingCircuit", n: 1, body: "var a, b sw_bn254.G1Affine; c := &BN256PairingCircuit{G1Points: [2]*sw_bn254.G1Affine{&a, &b}}; c.FillVerifyCircuitsG2(); return c.Define(api)",
			imports: []string{`"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"`},
			circuit: "func() frontend.Circuit { var a, b sw_bn254.G1Affine; c := &BN256PairingCircuit{G1Points: [2]*sw_bn254.G1Affine{&a, &b}}; c.FillVerifyCircuitsG2(); return c }()"},
	}
	return es
}

func (e compileEntry) fn() string { return "zzVerifDef" + strings.ReplaceAll(e.key, " ", "") }

func (e compileEntry) decl() string {
	return fmt.Sprintf("func %s(api frontend.API, V []frontend.Variable) error {\n%s\n}\n", e.fn(), e.body)
}

// file is the overlay file the entry is loaded from.
func (e compileEntry) file() string {
	im := append([]string{`"math/big"`, `"github.com/consensys/gnark/frontend"`}, e.imports...)
	return "package main\n\nimport (\n" + strings.Join(im, "\n") + "\n)\n\nvar _ = big.NewInt\n\n" + e.decl()
}

func (e compileEntry) goCode() string {
	c := ""
	for _, i := range append([]string{`"github.com/consensys/gnark/frontend/cs/scs"`}, e.imports...) {
		c += "//import " + i + "\n"
	}
	cir, cmp := e.circuit, ""
	if cir == "" {
		// witnesses the compiled system and a direct run must agree on
		cmp = fmt.Sprintf(`for try := int64(0); try < 6; try++ {
	w := &vfCirc§{V: make([]frontend.Variable, %d)}
	for i := range w.V { w.V[i] = big.NewInt([]int64{0, 1, 1 + int64(i), 5 * int64(i) %% 7, 2 - int64(i %% 2), 3}[try]) }
	full, e := frontend.NewWitness(w, ecc.BN254.ScalarField())
	if e != nil { return nil, e }
	compiled, direct := ccs.IsSolved(full), test.IsSolved(&vfCirc§{V: make([]frontend.Variable, %d)}, w, ecc.BN254.ScalarField())
	if (compiled == nil) != (direct == nil) { return nil, fmt.Errorf("witness %%v: the compiled system says %%v, a direct run says %%v", w.V, compiled, direct) }
}
`, e.n, e.n)
		cir = fmt.Sprintf("&vfCirc§{V: make([]frontend.Variable, %d)}", e.n)
	}
	return c + "//top\n" + fmt.Sprintf("type vfCirc§ struct { V []frontend.Variable }\nfunc (c *vfCirc§) Define(api frontend.API) error { return %s(api, c.V) }\n", e.fn()) + e.decl() + "//end\n" +
		"ccs, err := frontend.Compile(ecc.BN254.ScalarField(), scs.NewBuilder, " + cir + ")\n" +
		"if err != nil { return nil, err }\nx.info(\"constraints %d\", ccs.GetNbConstraints())\n" + cmp + "return nil, nil"
}

func init() {
	prop("C32", func(ck *Check) {
		es := compileEntries()
		var names []string
		for _, e := range es {
			names = append(names, e.key)
		}
		ck.bound("every path of building each circuit from variables without values: " + strings.Join(names, ", ") + " (fixed numbers of variables)")
		ck.assumption("a failing entry is compiled for real before it is reported; library gadgets are trusted not to inspect values")
		for _, e := range es {
			fn := ck.prog.main.Func(e.fn())
			if fn == nil {
				ck.inconclusive("%s: the entry does not compile against this tree", e.key)
				continue
			}
			if ck.over() {
				ck.inconclusive("%s: not reached within the time limit", e.key)
				continue
			}
			ck.compileEntry(e, fn)
		}
	})
}

func (ck *Check) compileEntry(e compileEntry, fn *ssa.Function) {
	looks := map[string]bool{}
	ex := ck.explorer(Adversarial)
	ex.deadline, ex.maxPaths = ck.deadline(), 40
	ex.setup = func(r *Run) {
		r.opaqueVars = true
		r.onBadAssert = func(f *ssa.Function, in *ssa.TypeAssert, x Iface) {
			if _, is := x.v.(*OpaqueVar); is {
				looks[f.Name()] = true
			}
		}
	}
	fail := ""
	und := false
	for _, o := range ex.Explore(func(m *Machine) (Value, interface{}) {
		V := make([]Value, e.n)
		for i := range V {
			V[i] = m.newOpaque()
		}
		return m.callSSA(fn, []Value{m.apiVal(), V}, nil), nil
	}) {
		ck.obl++
		switch {
		case o.kind == Unsupported || o.kind == BoundHit:
			ck.inconclusive("%s: path not encodable: %s", e.key, o.why)
			und = true
			continue
		case o.kind == Panicked:
			fail = fmt.Sprintf("panics: %v", o.pan)
		case o.kind == Returned && isErr(o.ret):
			fail = "fails to define its constraints"
		case len(looks) == 0:
			r := ck.Solve(append(o.run.factTerms(nil), B(len(looks) > 0)), ck.tmo)
			if r.v == Unsat {
				continue
			}
		}
		r := ck.Solve(o.run.factTerms(nil), ck.tmo)
		if r.v == Unsat {
			fail = ""
			continue
		}
		ck.oblBad++
	}
	if und && fail == "" && len(looks) == 0 {
		return
	}
	if fail == "" && len(looks) == 0 {
		return
	}
	var l []string
	for k := range looks {
		l = append(l, k)
	}
	sort.Strings(l)
	ck.needHarness()
	rs := ck.harness.run(map[string]string{e.key: e.goCode()}, []*Case{{Target: e.key}})
	if len(rs) == 0 || rs[0] == nil || ck.harness.err != "" {
		ck.inconclusive("%s: could not be compiled for real: %s", e.key, ck.harness.err)
		return
	}
	ck.stats.Traces++
	r := rs[0]
	why := fail
	if len(l) > 0 {
		why = "reads the value of a circuit variable in " + strings.Join(l, ", ")
	}
	if r.Status == "ok" {
		ck.inconclusive("%s: %s, but it compiles (%s)", e.key, why, strings.Join(r.Info, " "))
		return
	}
	if strings.HasPrefix(r.Err, "witness ") {
		ck.violation(e.key, fmt.Sprintf("%s: its constraint system does not serve every witness: %s; %s", e.key, why, firstLine(r.Err)), e.key)
		return
	}
	ck.violation(e.key, fmt.Sprintf("%s cannot be compiled to a constraint system: %s (real compiler: %s)", e.key, why, firstLine(r.Err)), e.key)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}
