package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"golang.org/x/tools/go/ssa"
)

// ---- the final pairing (C22)

// The fixed second-group operands s*G2 and -G2.
var (
	setupS = [4]*big.Int{
		bi("13560776910958896778309428450808722712362583089620853136731412215646945297830"), bi("17006984783035916014836003241042945838018391379603479329912940809520477208052"),
		bi("18091431719069275340788954644764755415339503689597559484185985670418402491565"), bi("12900589361605111856143562381318004229723309245412571888359653960504992734777")}
	setupNeg = [4]*big.Int{
		bi("10857046999023057135944570762232829481370756359578518086990519993285655852781"), bi("11559732032986387107991004021392285783925812861821192530917403151452391805634"),
		bi("13392588948715843804641432497768002650278120570034223513918757245338268106653"), bi("17805874995975841540914202342111839520379459829704422454583296818431106115052")}
	validA = cpt{bi("2920616387084030925907755037226454382846345550621956833249622258647667607078"), bi("16502678157049327323910877548707266122319935523346850792311342099791838736912")}
	validB = cpt{bi("7162082828732168937516361335135022403650719329242056518668518043784043198510"), bi("18768486256042060147567165227366772940689098806912976766549486364846889365307")}
)

func g2Sym(c [4]*big.Int) G2Sym { return G2Sym{C(c[0]), C(c[1]), C(c[2]), C(c[3])} }

// finalCheck is the specified decision on the two group elements.
func finalCheck(a, b *LC) *Term {
	acc := map[G2Sym]*LC{}
	var order []G2Sym
	for _, q := range []struct {
		g G2Sym
		l *LC
	}{{g2Sym(setupS), a}, {g2Sym(setupNeg), b}} {
		cq, neg := q.g.canon()
		l := q.l
		if neg {
			l = lcNeg(l)
		}
		acc[cq] = l
		order = append(order, cq)
	}
	return pairingPred(acc, order)
}

// pairVals draws pairs that satisfy the check and near misses: swapped,
// negated, unrelated, one coordinate off, infinite.
func pairVals(offCurve, inf bool) func(r *rand.Rand, ins []In) []*big.Int {
	turn := 0
	return func(r *rand.Rand, ins []In) []*big.Int {
		turn++
		k := new(big.Int).Add(randBelow(r, rMinus1), big1)
		a, b := validA.mul(k), validB.mul(k)
		zero := cpt{big.NewInt(0), big.NewInt(0)}
		n := 6
		if offCurve {
			n = 8
		}
		if inf {
			n += 2
		}
		i := turn % n
		if !offCurve && i >= 6 {
			i += 2
		}
		switch i {
		case 1:
			b = b.neg()
		case 2:
			a, b = b, a
		case 3:
			a = a.mul(big.NewInt(2))
		case 4:
			b = randPoint(r)
		case 6:
			a.y = new(big.Int).Mod(new(big.Int).Add(a.y, big1), pMod)
		case 7:
			b.x = new(big.Int).Mod(new(big.Int).Add(b.x, big1), pMod)
		case 8:
			a, b = zero, zero
		case 9:
			if r.Intn(2) == 0 {
				a = zero
			} else {
				b = zero
			}
		}
		return []*big.Int{a.x, a.y, b.x, b.y}
	}
}

func curveLemmas(in []*Term) []*Term {
	var o []*Term
	for i := 0; i+1 < len(in); i += 2 {
		o = append(o, curveLemma(in[i], in[i+1]), zeroLemma(in[i], in[i+1]))
	}
	return o
}

// zeroLemma: the only curve point with a zero coordinate is infinity's
// encoding (3 is no square and -3 no cube modulo p; checked in init).
func zeroLemma(x, y *Term) *Term {
	zx, zy := Eq(Mod(x, pMod), CI(0)), Eq(Mod(y, pMod), CI(0))
	return Or(Not(OnCurve(x, y)), And(zx, zy), And(Not(zx), Not(zy)))
}

func init() {
	e := new(big.Int).Rsh(pMod, 1)
	if new(big.Int).Exp(big.NewInt(3), e, pMod).Cmp(big1) == 0 {
		panic("3 is a square")
	}
	e.Sub(pMod, big1)
	if e.Div(e, big.NewInt(3)); new(big.Int).Exp(new(big.Int).Sub(pMod, big.NewInt(3)), e, pMod).Cmp(big1) == 0 {
		panic("-3 is a cube")
	}
}

func fpIns(names ...string) []In {
	var ins []In
	for _, n := range names {
		ins = append(ins, In{name: n, kind: KFp})
	}
	return ins
}

func (m *Machine) pairingObj() Ptr {
	t := m.prog.mainType("BN256PairingCircuit")
	if t == nil {
		unsup("type BN256PairingCircuit not found")
	}
	return m.newStruct(t, nil)
}

func fillG1Gadget() *Gadget {
	return &Gadget{key: "operands", ins: fpIns("x1", "y1", "x2", "y2"), sound: true, compl: true,
		call: func(m *Machine, in []*Term) ([]*Term, bool) {
			t := m.prog.mainType("BN256PairingCircuit")
			o := m.pairingObj()
			m.methodCall(t, "FillVerifyCircuitsG1", o, m.v(in[0]), m.v(in[1]), m.v(in[2]), m.v(in[3]))
			ps := (*o).(Struct)[0].(Array)
			var outs []*Term
			for _, p := range ps {
				s := (*m.deref(p)).(Struct)
				outs = append(outs, m.emuT(s[0]), m.emuT(s[1]))
			}
			return outs, false
		},
		goCode: `c := BN256PairingCircuit{}
	c.FillVerifyCircuitsG1(a[0], a[1], a[2], a[3])
	for _, p := range c.G1Points {
		for _, l := range [][]frontend.Variable{p.X.Limbs, p.Y.Limbs} {
			s := new(big.Int)
			for i := len(l) - 1; i >= 0; i-- { v, _ := new(big.Int).SetString(vfAny(l[i]), 10); s.Add(s.Lsh(s, 64), v) }
			outs = append(outs, vfRaw(s.String()))
		}
	}
	return outs, nil`,
		reject: func(in []*Term) *Term { return Or(Not(OnCurve(in[0], in[1])), Not(OnCurve(in[2], in[3]))) },
		outs:   func(in []*Term) []*Term { return in },
		vals:   pairVals(true, true),
		traces: 8,
	}
}

func finalGadget() *Gadget {
	return &Gadget{key: "decision", ins: fpIns("x1", "y1", "x2", "y2"), sound: true, compl: true,
		dom: func(in []*Term) *Term { return And(Not(isInf(in[0], in[1])), Not(isInf(in[2], in[3]))) },
		call: func(m *Machine, in []*Term) ([]*Term, bool) {
			t := m.prog.mainType("BN256PairingCircuit")
			o := m.pairingObj()
			m.methodCall(t, "FillVerifyCircuitsG1", o, m.v(in[0]), m.v(in[1]), m.v(in[2]), m.v(in[3]))
			m.methodCall(t, "FillVerifyCircuitsG2", o)
			return nil, isErr(m.methodCall(t, "Define", o, m.apiVal()))
		},
		goCode: `c := BN256PairingCircuit{}
	c.FillVerifyCircuitsG1(a[0], a[1], a[2], a[3])
	c.FillVerifyCircuitsG2()
	return nil, c.Define(api)`,
		reject: func(in []*Term) *Term {
			return Or(Not(OnCurve(in[0], in[1])), Not(OnCurve(in[2], in[3])), Not(finalCheck(pointOf(in[0], in[1]), pointOf(in[2], in[3]))))
		},
		vals:   pairVals(true, false),
		lemmas: curveLemmas,
		traces: 8,
	}
}

// stageStubs lets the earlier stages of the aggregator deliver any points.
var stageNames = []string{"VerifyInstanceHash", "CalcVerifyCircuitLagrange", "GetChallengesShPlonkCircuit", "VerifyProof1", "VerifyProof2", "VerifyProof3"}

func overrideMain(r *Run, name string, f func(m *Machine, fn *ssa.Function, args []Value) Value) {
	if r.override == nil {
		r.override = map[string]func(m *Machine, fn *ssa.Function, args []Value) Value{}
	}
	r.override["gnark-halo2-verify."+name] = f
}

func nonZeroGadget() *Gadget {
	return &Gadget{key: "aggregator's last stage", ins: fpIns("x1", "y1", "x2", "y2"), sound: true, compl: true,
		dom: func(in []*Term) *Term { return And(fitsFr(in...), OnCurve(in[0], in[1]), OnCurve(in[2], in[3])) },
		call: func(m *Machine, in []*Term) ([]*Term, bool) {
			for _, n := range stageNames {
				if m.prog.Fn(n) == nil {
					unsup("stage %s not found", n)
				}
			}
			noErr := func(m *Machine, fn *ssa.Function, args []Value) Value { return Iface{} }
			same := func(m *Machine, fn *ssa.Function, args []Value) Value { return Tuple{copyVal(args[3]), Iface{}} }
			overrideMain(m.run, "VerifyInstanceHash", func(m *Machine, fn *ssa.Function, args []Value) Value {
				return Tuple{m.v(CI(1)), Iface{}}
			})
			overrideMain(m.run, "CalcVerifyCircuitLagrange", noErr)
			overrideMain(m.run, "GetChallengesShPlonkCircuit", noErr)
			overrideMain(m.run, "VerifyProof1", same)
			overrideMain(m.run, "VerifyProof2", same)
			overrideMain(m.run, "VerifyProof3", func(m *Machine, fn *ssa.Function, args []Value) Value {
				b := copyVal(args[3]).(Array)
				for i := 0; i < 4; i++ {
					b[10+i] = m.v(in[i])
				}
				return Tuple{b, Iface{}}
			})
			return nil, isErr(m.defineCall("AggregatorCircuit", map[string]Value{}))
		},
		goCode: stageGo + `noErr := func(vals []interface{}) []interface{} { return []interface{}{nil} }
	same := func(vals []interface{}) []interface{} { return []interface{}{vals[3], nil} }
	vfStage = map[string]func([]interface{}) []interface{}{
		"VerifyInstanceHash": func(v []interface{}) []interface{} { return []interface{}{big.NewInt(1), nil} },
		"CalcVerifyCircuitLagrange": noErr, "GetChallengesShPlonkCircuit": noErr, "VerifyProof1": same, "VerifyProof2": same,
		"VerifyProof3": func(v []interface{}) []interface{} {
			b := v[3].([43]frontend.Variable)
			for i := 0; i < 4; i++ { b[10+i] = a[i] }
			return []interface{}{b, nil}
		},
	}
	c := &AggregatorCircuit{}
	return nil, c.Define(api)`,
		reject: func(in []*Term) *Term {
			return Or(isInf(in[0], in[1]), isInf(in[2], in[3]), Not(finalCheck(pointOf(in[0], in[1]), pointOf(in[2], in[3]))))
		},
		vals: func() func(r *rand.Rand, ins []In) []*big.Int {
			f := pairVals(false, true)
			return func(r *rand.Rand, ins []In) []*big.Int {
				for {
					v := f(r, ins)
					ok := true
					for _, x := range v {
						ok = ok && x.Cmp(rMod) < 0
					}
					if ok {
						return v
					}
				}
			}
		}(),
		lemmas: curveLemmas,
		traces: 8,
	}
}

const stageGo = `//stages
	defer func() { vfStage = nil }()
`

func init() {
	prop("C22", func(ck *Check) {
		ck.bound("all field coordinates of both points; the pairing itself is an uninterpreted predicate of the two points and the two fixed setup points, evaluated with an independent pairing when runs are compared")
		ck.assumption("gnark's PairingCheck decides e(P1,Q1)*e(P2,Q2)=1 for points on the curves")
		ck.assumption("the setup points are s*G2 and -G2 of the reference verifier, written out in the specification")
		ck.Gadgets(fillG1Gadget(), finalGadget(), nonZeroGadget())
		_ = fmt.Sprint
	})
}
