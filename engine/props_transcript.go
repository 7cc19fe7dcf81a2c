package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"golang.org/x/tools/go/ssa"
)

var transcriptSeed = bi("8025805240938309707562879759498205008153592202559235423490485577859843831056")

// squeeze is the transcript's hash: 32-byte words, then one zero byte.
func squeeze(words []*Term) *Term {
	ps, ws := beWords(words)
	return hashOf("sha256", append([]*Term{CI(0)}, ps...), append([]int{8}, ws...))
}

// pointStarts lists where the 24 points begin in the proof: 22 commitments and
// the two opening points.
func pointStarts() []int {
	var o []int
	for i := 0; i < 44; i += 2 {
		o = append(o, i)
	}
	return append(o, 100, 102)
}

// specChallenges is the protocol's hash chain over the instance commitment and
// the 104 proof words: theta, beta, gamma, y, x, y', v, u.
func specChallenges(c0, c1 *Term, proof []*Term) []*Term {
	state := C(transcriptSeed)
	var out []*Term
	sq := func(words ...*Term) {
		h := squeeze(append([]*Term{state}, words...))
		state = h
		out = append(out, intern(Mod(h, rMod)))
	}
	sq(append([]*Term{c0, c1}, proof[0:16]...)...) // theta: instance commitment, advice commitments
	sq(proof[16:24]...)                            // beta: permuted lookup columns
	sq()                                           // gamma
	sq(proof[24:38]...)                            // y: permutation and lookup products, random polynomial
	sq(proof[38:44]...)                            // x: quotient pieces
	sq(proof[44:100]...)                           // y': evaluations
	sq()                                           // v
	sq(proof[100:102]...)                          // u: first opening point
	return out
}

func u256Ins(n int, pre string) []In {
	var ins []In
	for i := 0; i < n; i++ {
		ins = append(ins, In{name: fmt.Sprintf("%s%d", pre, i), kind: KU256})
	}
	return ins
}

func randPoint(r *rand.Rand) cpt {
	return genPt.mul(new(big.Int).Add(randBelow(r, rMinus1), big1))
}

// hostHashUntrusted replaces the host's SHA-256 by arbitrary bytes: only what
// the circuit enforces then ties the digest to its input.
func hostHashUntrusted(r *Run) {
	r.override = map[string]func(m *Machine, fn *ssa.Function, args []Value) Value{
		"crypto/sha256.Sum256": func(m *Machine, fn *ssa.Function, args []Value) Value {
			out := make(Array, 32)
			for i := range out {
				out[i] = m.run.freshVar("hosthash", big0, byteHi)
			}
			return out
		},
	}
}

func squeezeGadget(n int) *Gadget {
	return &Gadget{key: fmt.Sprintf("SqueezeChallenge/%d", n), ins: u256Ins(n, "w"), sound: true, compl: true,
		call: func(m *Machine, in []*Term) ([]*Term, bool) {
			vs := make([]Value, n+2)
			for i := range vs {
				vs[i] = m.v(CI(77))
				if i < n {
					vs[i] = m.v(in[i])
				}
			}
			r := m.mainCall("SqueezeChallenge", m.apiVal(), vs, uint64(n)).(Tuple)
			if isErr(r[1]) {
				return nil, true
			}
			outs := []*Term{m.varOut(r[0])}
			for i := 0; i < n; i++ {
				outs = append(outs, m.fvar(vs[i]))
			}
			return outs, false
		},
		goCode: fmt.Sprintf(`n := %d
	v := make([]frontend.Variable, n+2)
	for i := range v {
		v[i] = big.NewInt(77)
		if i < n { v[i] = new(big.Int).Set(a[i]) }
	}
	r, err := SqueezeChallenge(api, v, n)
	if err != nil { return nil, err }
	outs = append(outs, r)
	for i := 0; i < n; i++ { outs = append(outs, vfRaw(v[i].(*big.Int).String())) }
	return outs, nil`, n),
		outs: func(in []*Term) []*Term {
			h := squeeze(in)
			return append([]*Term{Mod(h, rMod), h}, in[1:]...)
		},
		traces: 2,
	}
}

func curvePre(px, py *Term) *Term { return OnCurve(px, py) }

// curveLemma spells out what the library's on-curve test means.
func curveLemma(x, y *Term) *Term {
	o := OnCurve(x, y)
	if o == trueT {
		return trueT
	}
	eq := Eq(Mod(Mul(y, y), pMod), Mod(Add(Mul(x, x, x), CI(3)), pMod))
	return Or(And(o, Or(eq, And(Eq(Mod(x, pMod), CI(0)), Eq(Mod(y, pMod), CI(0))))),
		And(Not(o), Not(eq), Not(And(Eq(Mod(x, pMod), CI(0)), Eq(Mod(y, pMod), CI(0))))))
}

func challengeGadget(key string, checkCurve bool) *Gadget {
	var ins []In
	ins = append(ins, u256Ins(2, "c")...)
	ins = append(ins, u256Ins(104, "proof")...)
	good := func(in []*Term) *Term {
		var c []*Term
		for _, i := range pointStarts() {
			c = append(c, OnCurve(in[2+i], in[3+i]))
		}
		return And(c...)
	}
	g := &Gadget{key: key, ins: ins, maxP: 300,
		call: func(m *Machine, in []*Term) ([]*Term, bool) {
			buf := make([]Value, 43)
			for i := range buf {
				buf[i] = m.v(CI(0))
			}
			buf[0], buf[1] = m.v(in[0]), m.v(in[1])
			var tr []Value
			for _, t := range in[2:] {
				tr = append(tr, m.v(t))
			}
			if isErr(m.mainCall("GetChallengesShPlonkCircuit", m.apiVal(), buf, tr)) {
				return nil, true
			}
			var outs []*Term
			for i := 2; i < 10; i++ {
				outs = append(outs, m.varOut(buf[i]))
			}
			outs = append(outs, m.fvar(buf[0]), m.fvar(buf[1]))
			return outs, false
		},
		goCode: `buf := make([]frontend.Variable, 43)
	for i := range buf { buf[i] = big.NewInt(0) }
	buf[0], buf[1] = a[0], a[1]
	var tr []frontend.Variable
	for _, x := range a[2:] { tr = append(tr, x) }
	if err := GetChallengesShPlonkCircuit(api, buf, tr); err != nil { return nil, err }
	outs = append(outs, buf[2:10]...)
	return append(outs, vfRaw(vfAny(buf[0])), vfRaw(vfAny(buf[1]))), nil`,
		vals: func(r *rand.Rand, _ []In) []*big.Int {
			v := make([]*big.Int, 106)
			for i := range v {
				v[i] = randBelow(r, rMod)
			}
			for _, i := range append(pointStarts(), -2) {
				p := randPoint(r)
				v[2+i], v[3+i] = p.x, p.y
			}
			if checkCurve && r.Intn(3) > 0 {
				s := pointStarts()[r.Intn(24)]
				v[2+s+r.Intn(2)] = randBelow(r, pMod)
			}
			return v
		},
		traces: 2,
	}
	if checkCurve {
		g.sound, g.compl = true, true
		g.pre, g.reject = good, func(in []*Term) *Term { return Not(good(in)) }
	} else {
		g.sound = true
		g.outs = func(in []*Term) []*Term {
			return append(specChallenges(in[0], in[1], in[2:]), in[0], in[1])
		}
	}
	return g
}

func init() {
	prop("C09", func(ck *Check) {
		lens := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 19, 33, 57, 60}
		if ck.tier == "thorough" {
			lens = nil
			for i := 1; i <= 64; i++ {
				lens = append(lens, i)
			}
			lens = append(lens, 105, 111)
		}
		ck.bound(fmt.Sprintf("every 256-bit value of every absorbed word; lengths %v (the protocol uses 1, 3, 7, 9, 15, 19, 57)", lens))
		ck.assumption("gnark's SHA-256 gadget and Go's SHA-256 are the same uninterpreted function; in the enforcement part the host's SHA-256 is replaced by arbitrary bytes")
		var gs []*Gadget
		for _, n := range lens {
			g := squeezeGadget(n)
			g.noTrace = n != 1 && n != 3 && n != 9
			h := squeezeGadget(n)
			h.key += "/enforced"
			h.compl = false
			h.setup = hostHashUntrusted
			h.noTrace = true
			h.realCheck = assertsDigest
			gs = append(gs, g, h)
		}
		ck.Gadgets(gs...)
	})
	prop("C10", func(ck *Check) {
		ck.bound("every 256-bit value of the 2 commitment coordinates and the 104 proof words")
		ck.assumption("SHA-256 is an uninterpreted function")
		g := challengeGadget("GetChallengesShPlonkCircuit", false)
		h := challengeGadget("GetChallengesShPlonkCircuit/enforced", false)
		h.setup = hostHashUntrusted
		h.noTrace = true
		ck.Gadgets(g, h)
		ck.stepFaults(g, 0)
	})
	prop("C11", func(ck *Check) {
		ck.bound("every value of all 104 proof words; every canonical coordinate pair for the on-curve check")
		ck.assumption("gnark-crypto's IsOnCurve decides y^2 = x^3 + 3 or (0,0) (contract, instantiated on the inputs)")
		xy := []In{{name: "px", kind: KFp}, {name: "py", kind: KFp}}
		var gs []*Gadget
		for _, n := range []string{"VerifyCheckOnCurve", "VerifyCheckOnCurveVar"} {
			n := n
			gs = append(gs, &Gadget{key: n, ins: xy, sound: true, compl: true,
				call: func(m *Machine, in []*Term) ([]*Term, bool) {
					return nil, isErr(m.mainCall(n, m.apiVal(), m.v(in[0]), m.v(in[1])))
				},
				goCode: "return nil, " + n + "(api, a[0], a[1])",
				pre:    func(in []*Term) *Term { return OnCurve(in[0], in[1]) },
				reject: func(in []*Term) *Term { return Not(OnCurve(in[0], in[1])) },
				lemmas: func(in []*Term) []*Term { return []*Term{curveLemma(in[0], in[1])} },
				vals: func(r *rand.Rand, _ []In) []*big.Int {
					p := randPoint(r)
					switch r.Intn(6) {
					case 0:
						return []*big.Int{p.x, new(big.Int).Add(p.y, big1)}
					case 1:
						return []*big.Int{p.y, p.x}
					case 2:
						return []*big.Int{big.NewInt(0), big.NewInt(0)}
					case 3:
						return []*big.Int{big.NewInt(0), p.y}
					case 4:
						return []*big.Int{big.NewInt(1), big.NewInt(2)}
					}
					return []*big.Int{p.x, p.y}
				},
				traces: 10,
			})
		}
		g := challengeGadget("GetChallengesShPlonkCircuit", true)
		g.traces = 6
		gs = append(gs, g)
		ck.Gadgets(gs...)
	})
}

// assertsDigest looks in a recorded run for the 32 byte equalities that tie the
// returned digest to the in-circuit hash.
func assertsDigest(vals []*big.Int, r *Result) string {
	if len(r.Outs) < 2 {
		return ""
	}
	h, ok := new(big.Int).SetString(r.Outs[1], 10)
	if !ok || h.BitLen() > 256 {
		return ""
	}
	want := h.FillBytes(make([]byte, 32))
	for s := 0; s+32 <= len(r.Asserts); s++ {
		hit := true
		for i := 0; i < 32; i++ {
			k := fmt.Sprint(want[i])
			if r.Asserts[s+i] != [2]string{k, k} {
				hit = false
				break
			}
		}
		if hit {
			return ""
		}
	}
	// other ways of stating it: every digest byte asserted somewhere
	n := 0
	for _, a := range r.Asserts {
		for _, b := range want {
			if k := fmt.Sprint(b); a[0] == k && a[1] == k {
				n++
				break
			}
		}
	}
	if n >= 32 {
		return ""
	}
	return "the circuit does not enforce the digest it returns"
}
