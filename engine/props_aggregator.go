package main

import (
	"fmt"
	"math/big"
	"math/rand"
)

// ---- the whole aggregator (C23)

var (
	lagrangeX = bi("13534086339230182803823178260078315691269243572458753455438283544709107378988")
	lagrangeY = bi("9053077977614827188269653632534212501565186534180282672519599630892718179094")
)

func aggIns(n, k int) []In {
	ins := append([]In(nil), vfIns()[:125]...)
	for i := 0; i < n; i++ {
		ins = append(ins, In{name: fmt.Sprintf("target%d", i), kind: KFr})
	}
	for i := 0; i < k; i++ {
		ins = append(ins, In{name: fmt.Sprintf("inst%d", i), kind: KFr})
	}
	return ins
}

// aggSpec derives the verifier's inputs from the aggregator's: digest, instance
// commitment and challenges.
func aggSpec(in []*Term) vfIn {
	digest := intern(Mod(instDigest(in[125:]), rMod))
	l := lcScale(pointOf(C(lagrangeX), C(lagrangeY)), digest)
	cx, cy := intern(Mod(lcX(l), rMod)), intern(Mod(lcY(l), rMod))
	all := append(append([]*Term(nil), in[:125]...), cx, cy)
	all = append(all, specChallenges(cx, cy, in[:104])...)
	return vfOf(all)
}

// aggAccepts is the specified verdict.
func aggAccepts(in []*Term) *Term {
	s := aggSpec(in)
	var c []*Term
	for _, i := range pointStarts() {
		c = append(c, OnCurve(in[i], in[i+1]))
	}
	for i, q := range s.auxSpec() {
		c = append(c, Not(Eq(q.den, CI(0))), Eq(fProd(s.aux[i], q.den), q.num))
	}
	a, b := s.pairing()
	ax, ay, bx, by := intern(Mod(lcX(a), rMod)), intern(Mod(lcY(a), rMod)), intern(Mod(lcX(b), rMod)), intern(Mod(lcY(b), rMod))
	c = append(c, OnCurve(ax, ay), OnCurve(bx, by), Not(isInf(ax, ay)), Not(isInf(bx, by)))
	c = append(c, finalCheck(pointOf(ax, ay), pointOf(bx, by)))
	return And(c...)
}

func parse(ss []string) []*big.Int {
	var o []*big.Int
	for _, s := range ss {
		o = append(o, bi(s))
	}
	return o
}

// aggVals starts from the recorded proof: unchanged when the instances fit,
// then with one element changed.
func aggVals(n, k int) func(r *rand.Rand, ins []In) []*big.Int {
	turn := 0
	return func(r *rand.Rand, ins []In) []*big.Int {
		v := append(parse(recordedProof), parse(recordedAux)...)
		fill := func(rec []string, n int) {
			for i := 0; i < n; i++ {
				if i < len(rec) {
					v = append(v, bi(rec[i]))
				} else {
					v = append(v, big.NewInt(int64(r.Intn(2))))
				}
			}
		}
		fill(recordedTarget, n)
		fill(recordedVerify, k)
		turn++
		if turn == 1 {
			return v
		}
		i := r.Intn(len(v))
		if turn%2 == 0 {
			i = 125 + r.Intn(len(v)-125)
		}
		v[i] = new(big.Int).Mod(new(big.Int).Add(v[i], big1), rMod)
		return v
	}
}

func aggGadget(n, k int) *Gadget {
	return &Gadget{key: fmt.Sprintf("AggregatorCircuit/%d+%d", n, k), ins: aggIns(n, k), sound: true,
		call: func(m *Machine, in []*Term) ([]*Term, bool) {
			vs := func(ts []*Term) []Value {
				var o []Value
				for _, t := range ts {
					o = append(o, m.v(t))
				}
				return o
			}
			e := m.defineCall("AggregatorCircuit", map[string]Value{"Proof": vs(in[:104]), "Aux": vs(in[104:125]),
				"TargetInst": vs(in[125 : 125+n]), "VerifyInst": vs(in[125+n:])})
			return nil, isErr(e)
		},
		goCode: fmt.Sprintf(`c := &AggregatorCircuit{}
	add := func(l *[]frontend.Variable, x []*big.Int) { for _, v := range x { *l = append(*l, new(big.Int).Set(v)) } }
	add(&c.Proof, a[:104])
	add(&c.Aux, a[104:125])
	add(&c.TargetInst, a[125:%d])
	add(&c.VerifyInst, a[%d:])
	return nil, c.Define(api)`, 125+n, 125+n),
		setup:     longPowers,
		complReal: true,
		pre:       aggAccepts,
		reject:    func(in []*Term) *Term { return Not(aggAccepts(in)) },
		vals:      aggVals(n, k),
		lemmas: func(in []*Term) []*Term {
			s := aggSpec(in)
			a, b := s.pairing()
			ax, ay, bx, by := intern(Mod(lcX(a), rMod)), intern(Mod(lcY(a), rMod)), intern(Mod(lcX(b), rMod)), intern(Mod(lcY(b), rMod))
			return curveLemmas([]*Term{ax, ay, bx, by})
		},
		traces: 2,
	}
}

func init() {
	prop("C23", func(ck *Check) {
		sizes := [][2]int{{4, 1}, {5, 1}, {4, 2}, {0, 1}}
		if ck.tier == "thorough" {
			sizes = append(sizes, [][2]int{{1, 1}, {4, 0}, {3, 3}, {8, 2}, {16, 1}, {2, 17}, {33, 9}}...)
		}
		ck.bound(fmt.Sprintf("every proof word, auxiliary value, instance and hint answer; (public, private) instance counts %v", sizes))
		var gs []*Gadget
		for i, s := range sizes {
			g := aggGadget(s[0], s[1])
			g.noTrace = i > 1
			gs = append(gs, g)
		}
		ck.Gadgets(gs...)
		ck.stepFaults(aggGadget(4, 1), 0)
	})
}
