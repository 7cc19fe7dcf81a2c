package main

import (
	"fmt"
	"math/big"
	"math/rand"
)

func ptIns(names ...string) []In {
	var ins []In
	for _, n := range names {
		ins = append(ins, In{name: n + "x", kind: KPointX}, In{name: n + "y", kind: KPointY})
	}
	return ins
}

func isInf(x, y *Term) *Term { return And(Eq(x, CI(0)), Eq(y, CI(0))) }
func lcIsInf(l *LC) *Term    { return isInf(lcX(l), lcY(l)) }
func fitsFr(ts ...*Term) *Term { // coordinates representable as circuit variables
	var c []*Term
	for _, t := range ts {
		c = append(c, Lt(t, C(rMod)))
	}
	return And(c...)
}

func v2(m *Machine, x, y *Term) Array { return Array{m.v(x), m.v(y)} }

// resPair reads a ([2]Variable, error) result.
func (m *Machine) resPair(v Value) ([]*Term, bool) {
	r := v.(Tuple)
	if isErr(r[1]) {
		return nil, true
	}
	a := r[0].(Array)
	return []*Term{m.varOut(a[0]), m.varOut(a[1])}, false
}

// pointAlternatives proposes other answers a prover might give for a point.
func pointAlternatives(name string, in, out []*big.Int) [][]*big.Int {
	res := modAlternatives(name, in, out)
	if len(out) == 2 {
		z := big.NewInt(0)
		res = append(res, []*big.Int{z, z}, []*big.Int{big.NewInt(1), big.NewInt(2)})
		if len(in) >= 2 {
			res = append(res, []*big.Int{in[0], in[1]})
			if in[0].Cmp(pMod) < 0 && in[1].Cmp(pMod) < 0 {
				p := cpt{in[0], in[1]}
				if p.onCurve() {
					for _, k := range []int64{2, 3, -1} {
						q := p.mul(new(big.Int).Mod(big.NewInt(k), rMod))
						res = append(res, []*big.Int{q.x, q.y})
					}
				}
			}
		}
		// the negated point: same x
		res = append(res, []*big.Int{out[0], new(big.Int).Mod(new(big.Int).Sub(pMod, out[1]), pMod)})
	}
	return res
}

// pointVals draws points and scalars, with repeated, opposite and infinite
// points and small scalars among them. ins are KPointX/KPointY pairs and KFr.
func pointVals(inf bool) func(r *rand.Rand, ins []In) []*big.Int {
	return func(r *rand.Rand, ins []In) []*big.Int {
		out := make([]*big.Int, len(ins))
		var last *cpt
		for i := 0; i < len(ins); i++ {
			switch ins[i].kind {
			case KPointX:
				p := randPoint(r)
				if last != nil {
					switch r.Intn(4) {
					case 0:
						p = *last
					case 1:
						p = last.neg()
					}
				}
				if inf && r.Intn(8) == 0 {
					p = cpt{big.NewInt(0), big.NewInt(0)}
				}
				out[i], out[i+1] = p.x, p.y
				if p.x.Sign() != 0 || p.y.Sign() != 0 {
					last = &p
				}
				i++
			case KFr:
				switch r.Intn(5) {
				case 0:
					out[i] = big.NewInt(int64(1 + r.Intn(3)))
				default:
					out[i] = randBelow(r, rMod)
				}
			default:
				out[i] = randBelow(r, rMod)
			}
		}
		return out
	}
}

// withClaim adds a claimed result point: the right one, or a near miss.
func withClaim(base func(r *rand.Rand, ins []In) []*big.Int, result func(v []*big.Int) cpt) func(r *rand.Rand, ins []In) []*big.Int {
	return func(r *rand.Rand, ins []In) []*big.Int {
		n := len(ins) - 2
		v := base(r, ins[:n])
		p := result(v)
		if p.x == nil {
			p = cpt{big.NewInt(0), big.NewInt(0)}
		}
		switch r.Intn(7) {
		case 0:
			p = p.neg()
		case 1:
			p = randPoint(r)
		case 2:
			p = cpt{new(big.Int).Add(p.x, big1), p.y}
		case 3:
			p = cpt{p.x, randBelow(r, rMod)}
		case 4:
			// a value congruent modulo the scalar field
			x := new(big.Int).Add(p.x, rMod)
			if x.Cmp(pMod) < 0 {
				p = cpt{x, p.y}
			}
		}
		if p.x == nil {
			p = cpt{big.NewInt(0), big.NewInt(0)}
		}
		return append(v, p.x, p.y)
	}
}

func norm(p cpt) cpt {
	if p.x == nil {
		return cpt{big.NewInt(0), big.NewInt(0)}
	}
	return p
}

const assumeCurve = "gnark's emulated curve gadget (AddUnified complete; ScalarMul exact where it accepts) and the host curve libraries compute the BN254 group law: points are formal linear combinations of the input points"

// usableScalar: gnark's ScalarMul refuses 0 and some scalars next to the group
// order (its additions are incomplete); completeness is claimed elsewhere.
func usableScalar(k *Term) *Term {
	return And(Not(Eq(k, CI(0))), Le(k, C(new(big.Int).Sub(rMod, big.NewInt(1024)))))
}

const assumeFit = "completeness is claimed for results that are finite and whose coordinates are below the scalar field order (a circuit variable cannot carry others)"

func init() {
	pk := append(ptIns("p"), In{name: "k", kind: KFr})
	onc := func(in []*Term) *Term { return OnCurve(in[0], in[1]) }
	mulLC := func(in []*Term) *LC { return lcScale(pointOf(in[0], in[1]), in[2]) }
	mulPre := func(in []*Term) *Term {
		l := mulLC(in)
		return And(usableScalar(in[2]), Not(isInf(in[0], in[1])), fitsFr(lcX(l), lcY(l)), Not(lcIsInf(l)))
	}
	mulC := func(v []*big.Int) cpt { return norm(cpt{v[0], v[1]}.mul(v[2])) }
	xy := func(l *LC) []*Term { return []*Term{lcX(l), lcY(l)} }
	neq := func(in []*Term, n int, l *LC) *Term {
		return Not(And(Eq(in[n], lcX(l)), Eq(in[n+1], lcY(l))))
	}
	claim := []In{{name: "rx", kind: KFp}, {name: "ry", kind: KFp}}

	prop("C12", func(ck *Check) {
		ck.bound("every on-curve point, every scalar in [0,r), every hint answer in [0,r), every claimed result")
		ck.assumption(assumeCurve)
		ck.assumption(assumeFit)
		var gs []*Gadget
		for _, n := range []string{"CalcVerifyBN256Msm", "CalcVerifyBN256Msm1"} {
			n := n
			if ck.prog.Fn(n) == nil {
				continue
			}
			gs = append(gs, &Gadget{key: n, ins: pk, sound: true, compl: true, dom: onc, pre: mulPre,
				call: func(m *Machine, in []*Term) ([]*Term, bool) {
					return m.resPair(m.mainCall(n, m.apiVal(), m.v(in[0]), m.v(in[1]), m.v(in[2])))
				},
				goCode:   "r, err := " + n + "(api, a[0], a[1], a[2])\nreturn []frontend.Variable{r[0], r[1]}, err",
				outs:     func(in []*Term) []*Term { return xy(mulLC(in)) },
				vals:     pointVals(false),
				hintHook: pointAlternatives,
			})
		}
		sa := func(key, code string, call func(m *Machine, in []*Term) Value) *Gadget {
			return &Gadget{key: key, ins: append(append([]In{}, pk...), claim...), sound: true, compl: true, dom: onc,
				pre: func(in []*Term) *Term {
					return And(Not(neq(in, 3, mulLC(in))), usableScalar(in[2]), Not(isInf(in[0], in[1])), Not(lcIsInf(mulLC(in))))
				},
				reject: func(in []*Term) *Term { return neq(in, 3, mulLC(in)) },
				call:   func(m *Machine, in []*Term) ([]*Term, bool) { return nil, isErr(call(m, in)) },
				goCode: code,
				vals:   withClaim(pointVals(false), mulC),
				traces: 8,
			}
		}
		gs = append(gs, sa("VerifyBN254ScalarMul", "return nil, VerifyBN254ScalarMul(api, [2]frontend.Variable{a[0], a[1]}, a[2], [2]frontend.Variable{a[3], a[4]})",
			func(m *Machine, in []*Term) Value {
				return m.mainCall("VerifyBN254ScalarMul", m.apiVal(), v2(m, in[0], in[1]), m.v(in[2]), v2(m, in[3], in[4]))
			}))
		if ck.prog.mainType("BN254ScalarMul") != nil {
			gs = append(gs, sa("BN254ScalarMul circuit", "c := &BN254ScalarMul{Point: [2]frontend.Variable{a[0], a[1]}, Scalar: a[2], Res: [2]frontend.Variable{a[3], a[4]}}\nreturn nil, c.Define(api)",
				func(m *Machine, in []*Term) Value {
					return m.defineCall("BN254ScalarMul", map[string]Value{"Point": v2(m, in[0], in[1]), "Scalar": m.v(in[2]), "Res": v2(m, in[3], in[4])})
				}))
		}
		ck.Gadgets(gs...)
	})

	pq := ptIns("p", "q")
	onc2 := func(in []*Term) *Term { return And(OnCurve(in[0], in[1]), OnCurve(in[2], in[3])) }
	addLC := func(in []*Term) *LC { return lcAdd(pointOf(in[0], in[1]), pointOf(in[2], in[3])) }
	addC := func(v []*big.Int) cpt {
		p, q := cpt{v[0], v[1]}, cpt{v[2], v[3]}
		return norm(p.add(q))
	}
	prop("C13", func(ck *Check) {
		ck.bound("every pair of on-curve points including equal, opposite and infinite ones, every hint answer in [0,r), every claimed result")
		ck.assumption(assumeCurve)
		ck.assumption(assumeFit)
		var gs []*Gadget
		for _, n := range []string{"CalcVerifyBN256Add", "CalcVerifyBN256Add1"} {
			n := n
			if ck.prog.Fn(n) == nil {
				continue
			}
			gs = append(gs, &Gadget{key: n, ins: pq, sound: true, compl: true, dom: onc2,
				pre: func(in []*Term) *Term {
					l := addLC(in)
					// P + O = P and O + Q = Q, spelled out for the solver
					return And(fitsFr(xy(l)...), Not(lcIsInf(l)), Or(Not(isInf(in[0], in[1])), fitsFr(in[2], in[3])), Or(Not(isInf(in[2], in[3])), fitsFr(in[0], in[1])))
				},
				call: func(m *Machine, in []*Term) ([]*Term, bool) {
					return m.resPair(m.mainCall(n, m.apiVal(), m.v(in[0]), m.v(in[1]), m.v(in[2]), m.v(in[3])))
				},
				goCode:   "r, err := " + n + "(api, a[0], a[1], a[2], a[3])\nreturn []frontend.Variable{r[0], r[1]}, err",
				outs:     func(in []*Term) []*Term { return xy(addLC(in)) },
				vals:     pointVals(true),
				hintHook: pointAlternatives,
				traces:   8,
			})
		}
		sa := func(key, code string, call func(m *Machine, in []*Term) Value) *Gadget {
			return &Gadget{key: key, ins: append(append([]In{}, pq...), claim...), sound: true, compl: true, dom: onc2,
				pre:    func(in []*Term) *Term { return Not(neq(in, 4, addLC(in))) },
				reject: func(in []*Term) *Term { return neq(in, 4, addLC(in)) },
				call:   func(m *Machine, in []*Term) ([]*Term, bool) { return nil, isErr(call(m, in)) },
				goCode: code,
				vals:   withClaim(pointVals(true), addC),
				traces: 12,
			}
		}
		gs = append(gs, sa("VerifyBN254Add", "return nil, VerifyBN254Add(api, [2]frontend.Variable{a[0], a[1]}, [2]frontend.Variable{a[2], a[3]}, [2]frontend.Variable{a[4], a[5]})",
			func(m *Machine, in []*Term) Value {
				return m.mainCall("VerifyBN254Add", m.apiVal(), v2(m, in[0], in[1]), v2(m, in[2], in[3]), v2(m, in[4], in[5]))
			}))
		if ck.prog.mainType("BN254Add") != nil {
			gs = append(gs, sa("BN254Add circuit", "c := &BN254Add{Point1: [2]frontend.Variable{a[0], a[1]}, Point2: [2]frontend.Variable{a[2], a[3]}, ExpectedRes: [2]frontend.Variable{a[4], a[5]}}\nreturn nil, c.Define(api)",
				func(m *Machine, in []*Term) Value {
					return m.defineCall("BN254Add", map[string]Value{"Point1": v2(m, in[0], in[1]), "Point2": v2(m, in[2], in[3]), "ExpectedRes": v2(m, in[4], in[5])})
				}))
		}
		ck.Gadgets(gs...)
	})

	// the host hints
	hintGadget := func(name string, ins []In, lc func(in []*Term) *LC, pts int) *Gadget {
		onAll := func(in []*Term) *Term {
			c := []*Term{}
			for i := 0; i < pts; i++ {
				c = append(c, OnCurve(in[2*i], in[2*i+1]))
			}
			return And(c...)
		}
		base := pointVals(true)
		return &Gadget{key: name, ins: ins, sound: true, compl: true,
			pre:    func(in []*Term) *Term { return onAll(in) },
			reject: func(in []*Term) *Term { return Not(onAll(in)) },
			dom:    func(in []*Term) *Term { return Or(Not(onAll(in)), Not(lcIsInf(lc(in)))) },
			call: func(m *Machine, in []*Term) ([]*Term, bool) {
				res := []Value{newBig(CI(0)), newBig(CI(0))}
				var args []Value
				for _, t := range in {
					args = append(args, newBig(t))
				}
				e := m.mainCall(name, newBig(C(rMod)), args, res)
				if isErr(e) {
					return nil, true
				}
				outs := []*Term{m.bigOf(res[0]), m.bigOf(res[1])}
				for _, a := range args {
					outs = append(outs, m.bigOf(a))
				}
				return outs, false
			},
			goCode: `res := []*big.Int{new(big.Int), new(big.Int)}
	in := make([]*big.Int, len(a))
	for i := range a { in[i] = new(big.Int).Set(a[i]) }
	if e := ` + name + `(ecc.BN254.ScalarField(), in, res); e != nil { return nil, e }
	for _, x := range append(res, in...) { outs = append(outs, vfRaw(x.String())) }
	return outs, nil`,
			outs: func(in []*Term) []*Term {
				l := lc(in)
				return append([]*Term{lcX(l), lcY(l)}, in...)
			},
			vals: func(r *rand.Rand, ins []In) []*big.Int {
				v := base(r, ins)
				if r.Intn(4) == 0 {
					i := r.Intn(2 * pts)
					v[i] = randBelow(r, pMod)
				}
				return v
			},
			traces: 12,
		}
	}
	prop("C14", func(ck *Check) {
		ck.bound("every coordinate in [0,p), every scalar in [0,r); results at infinity excluded (they have no affine coordinates)")
		ck.assumption("go-ethereum's bn256 implements the group law, refuses points off the curve and prints coordinates as 64 hex digits")
		ck.Gadgets(hintGadget("MsmHint", pk, mulLC, 1), hintGadget("AddHint", pq, addLC, 2))
	})

	prop("C15", func(ck *Check) {
		type slot struct{ n, off int }
		slots := []slot{{8, 0}, {8, 1}, {8, 2}, {43, 0}, {43, 10}, {43, 25}, {43, 38}, {43, 40}}
		if ck.tier == "thorough" {
			for i := 0; i <= 40; i++ {
				slots = append(slots, slot{43, i})
			}
		}
		ck.bound(fmt.Sprintf("every buffer holding on-curve points and scalars, (slots, offset) in %v; every hint answer; every subset of refused hints", slots))
		ck.assumption(assumeCurve)
		ck.assumption(assumeFit)
		var gs []*Gadget
		for _, sl := range slots {
			N, off := sl.n, sl.off
			mkIns := func(add bool) []In {
				var ins []In
				for i := 0; i < N; i++ {
					ins = append(ins, In{name: fmt.Sprintf("b%d", i), kind: KFr})
				}
				setP := func(i int) { ins[i].kind, ins[i+1].kind = KPointX, KPointY }
				setP(off)
				if add {
					setP(off + 2)
				}
				return ins
			}
			for _, add := range []bool{false, true} {
				if add && off+5 > N {
					continue
				}
				add := add
				name := "ecc_mul"
				k := off + 2
				if add {
					name = "ecc_mul_add"
					k = off + 4
				}
				muls := func(in []*Term) (x, y int, p, s *LC) { // slots and product / sum
					if !add {
						return off, off + 1, lcScale(pointOf(in[off], in[off+1]), in[k]), nil
					}
					pr := lcScale(pointOf(in[off+2], in[off+3]), in[k])
					return off + 2, off + 3, pr, lcAdd(pointOf(in[off], in[off+1]), pr)
				}
				g := &Gadget{key: fmt.Sprintf("%s/offset %d of %d", name, off, N), ins: mkIns(add), sound: true, compl: true,
					dom: func(in []*Term) *Term {
						c := []*Term{OnCurve(in[off], in[off+1])}
						if add {
							c = append(c, OnCurve(in[off+2], in[off+3]))
						}
						return And(c...)
					},
					pre: func(in []*Term) *Term {
						x, y, p, s := muls(in)
						c := []*Term{usableScalar(in[k]), Not(isInf(in[x], in[y])), fitsFr(lcX(p), lcY(p)), Not(lcIsInf(p))}
						if s != nil {
							c = append(c, fitsFr(lcX(s), lcY(s)), Not(lcIsInf(s)))
						}
						return And(c...)
					},
					call: func(m *Machine, in []*Term) ([]*Term, bool) {
						var buf []Value
						for _, t := range in {
							buf = append(buf, m.v(t))
						}
						if isErr(m.mainCall(name, m.apiVal(), buf, uint64(off))) {
							return nil, true
						}
						var outs []*Term
						for _, v := range buf {
							outs = append(outs, m.varOut(v))
						}
						return outs, false
					},
					goCode: fmt.Sprintf(`buf := make([]frontend.Variable, len(a))
	for i := range a { buf[i] = new(big.Int).Set(a[i]) }
	err = %s(api, buf, %d)
	return buf, err`, name, off),
					outs: func(in []*Term) []*Term {
						o := append([]*Term(nil), in...)
						x, y, p, s := muls(in)
						// slots hold circuit values, i.e. residues
						o[x], o[y] = intern(Mod(lcX(p), rMod)), intern(Mod(lcY(p), rMod))
						if s != nil {
							o[off], o[off+1] = intern(Mod(lcX(s), rMod)), intern(Mod(lcY(s), rMod))
						}
						for i := range o {
							o[i] = intern(Mod(o[i], rMod))
						}
						return o
					},
					vals:     pointVals(false),
					hintHook: pointAlternatives,
					traces:   3,
				}
				gs = append(gs, g)
			}
		}
		ck.Gadgets(gs...)
		// refused hints must surface
		ck.faults("ecc_mul_add", gs[1])
		ck.faults("ecc_mul", gs[0])
	})

	prop("C18", func(ck *Check) {
		ck.bound("every digest value in [0,r), every hint answer in [0,r), all 43 buffer slots")
		ck.assumption(assumeCurve)
		ck.assumption(assumeFit)
		var ins []In
		for i := 0; i < 43; i++ {
			ins = append(ins, In{name: fmt.Sprintf("b%d", i), kind: KFr})
		}
		bx := C(bi("13534086339230182803823178260078315691269243572458753455438283544709107378988"))
		by := C(bi("9053077977614827188269653632534212501565186534180282672519599630892718179094"))
		l := func(in []*Term) *LC { return lcScale(pointOf(bx, by), in[2]) }
		ck.Gadgets(&Gadget{key: "CalcVerifyCircuitLagrange", ins: ins, sound: true, compl: true,
			pre: func(in []*Term) *Term {
				return And(usableScalar(in[2]), fitsFr(xy(l(in))...), Not(lcIsInf(l(in))))
			},
			call: func(m *Machine, in []*Term) ([]*Term, bool) {
				var buf []Value
				for _, t := range in {
					buf = append(buf, m.v(t))
				}
				if isErr(m.mainCall("CalcVerifyCircuitLagrange", m.apiVal(), buf)) {
					return nil, true
				}
				var outs []*Term
				for _, v := range buf {
					outs = append(outs, m.varOut(v))
				}
				return outs, false
			},
			goCode: `buf := make([]frontend.Variable, len(a))
	for i := range a { buf[i] = new(big.Int).Set(a[i]) }
	err = CalcVerifyCircuitLagrange(api, buf)
	return buf, err`,
			outs: func(in []*Term) []*Term {
				return append([]*Term{intern(Mod(lcX(l(in)), rMod)), intern(Mod(lcY(l(in)), rMod))}, in[2:]...)
			},
			vals: func(r *rand.Rand, ins []In) []*big.Int {
				v := ck.randomVals(ins)
				if v[2].Sign() == 0 {
					v[2] = big.NewInt(5)
				}
				return v
			},
			hintHook: pointAlternatives,
		})
	})

	prop("C16", func(ck *Check) {
		max := 8
		if ck.tier == "thorough" {
			max = 24
		}
		ck.bound(fmt.Sprintf("1..%d points, every on-curve point, every scalar, every claimed result", max))
		ck.assumption(assumeCurve)
		ck.assumption("completeness is claimed for non-zero scalars not next to the group order (gnark refuses some), finite points with pairwise different x and a finite sum (gnark's MultiScalarMul adds with incomplete formulas)")
		var gs []*Gadget
		// lists of different lengths, and empty lists
		sizes := [][2]int{{0, 0}, {1, 0}, {1, 2}, {2, 1}, {3, 1}, {3, 5}}
		if ck.tier == "thorough" {
			sizes = nil
			for a := 0; a <= 6; a++ {
				for b := 0; b <= 6; b++ {
					if a != b && a != 0 || a+b == 0 {
						sizes = append(sizes, [2]int{a, b})
					}
				}
			}
		}
		for _, sz := range sizes {
			np, ns := sz[0], sz[1]
			var ins []In
			for i := 0; i < np; i++ {
				ins = append(ins, ptIns(fmt.Sprintf("p%d", i))...)
			}
			for i := 0; i < ns; i++ {
				ins = append(ins, In{name: fmt.Sprintf("s%d", i), kind: KFr})
			}
			ins = append(ins, claim...)
			gs = append(gs, &Gadget{key: fmt.Sprintf("VerifyMultiScalarMul/%d points and %d scalars", np, ns), ins: ins, sound: true, compl: np == ns,
				dom: func(in []*Term) *Term {
					c := []*Term{}
					for i := 0; i < np; i++ {
						c = append(c, OnCurve(in[2*i], in[2*i+1]))
					}
					return And(c...)
				},
				pre: func(in []*Term) *Term { return And(Eq(in[0], CI(0)), Eq(in[1], CI(0))) },
				reject: func(in []*Term) *Term {
					if np != ns {
						return trueT
					}
					return Not(And(Eq(in[0], CI(0)), Eq(in[1], CI(0))))
				},
				call: func(m *Machine, in []*Term) ([]*Term, bool) {
					aff := func(x, y *Term) Value { return Struct{EmuEl{x, pMod}, EmuEl{y, pMod}} }
					ps, ss := []Value{}, []Value{}
					for i := 0; i < np; i++ {
						ps = append(ps, aff(in[2*i], in[2*i+1]))
					}
					for i := 0; i < ns; i++ {
						ss = append(ss, EmuEl{in[2*np+i], rMod})
					}
					return nil, isErr(m.mainCall("zzVerifMsm", m.apiVal(), ps, ss, aff(in[2*np+ns], in[2*np+ns+1])))
				},
				goCode: fmt.Sprintf(`//import "github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
//import "github.com/consensys/gnark/std/math/emulated"
	np, ns := %d, %d
	ps := []sw_emulated.AffinePoint[emulated.BN254Fp]{}
	ss := []emulated.Element[emulated.BN254Fr]{}
	aff := func(x, y *big.Int) sw_emulated.AffinePoint[emulated.BN254Fp] {
		return sw_emulated.AffinePoint[emulated.BN254Fp]{X: emulated.ValueOf[emulated.BN254Fp](x), Y: emulated.ValueOf[emulated.BN254Fp](y)}
	}
	for i := 0; i < np; i++ {
		ps = append(ps, aff(a[2*i], a[2*i+1]))
	}
	for i := 0; i < ns; i++ {
		ss = append(ss, emulated.ValueOf[emulated.BN254Fr](a[2*np+i]))
	}
	return nil, VerifyMultiScalarMul(api, ps, ss, aff(a[2*np+ns], a[2*np+ns+1]))`, np, ns),
				vals: func(r *rand.Rand, ins []In) []*big.Int {
					v := pointVals(false)(r, ins)
					for i := 0; i < np; i++ {
						p := randPoint(r)
						v[2*i], v[2*i+1] = p.x, p.y
					}
					if np == 0 && r.Intn(2) == 0 {
						v[ns], v[ns+1] = big.NewInt(0), big.NewInt(0)
					}
					return v
				},
				traces: 3,
			})
		}
		for n := 1; n <= max; n++ {
			n := n
			var ins []In
			for i := 0; i < n; i++ {
				ins = append(ins, ptIns(fmt.Sprintf("p%d", i))...)
			}
			for i := 0; i < n; i++ {
				ins = append(ins, In{name: fmt.Sprintf("s%d", i), kind: KFr})
			}
			ins = append(ins, claim...)
			sum := func(in []*Term) *LC {
				l := lcInf
				for i := 0; i < n; i++ {
					l = lcAdd(l, lcScale(pointOf(in[2*i], in[2*i+1]), in[2*n+i]))
				}
				return l
			}
			for _, circ := range []bool{false, true} {
				fn, key, code := "zzVerifMsm", fmt.Sprintf("VerifyMultiScalarMul/%d", n), "return nil, VerifyMultiScalarMul(api, ps, ss, e)"
				if circ {
					fn, key = "zzVerifMsmCircuit", fmt.Sprintf("MultiScalarMul circuit/%d", n)
					code = "c := &MultiScalarMul[emulated.BN254Fp, emulated.BN254Fr]{Points: ps, Scalars: ss, Res: e}\nreturn nil, c.Define(api)"
				}
				gs = append(gs, &Gadget{key: key, ins: ins, sound: true, compl: true,
					dom: func(in []*Term) *Term {
						var c []*Term
						for i := 0; i < n; i++ {
							c = append(c, OnCurve(in[2*i], in[2*i+1]))
						}
						return And(c...)
					},
					pre: func(in []*Term) *Term {
						c := []*Term{Not(neq(in, 3*n, sum(in))), Not(lcIsInf(sum(in)))}
						for i := 0; i < n; i++ {
							c = append(c, Not(isInf(in[2*i], in[2*i+1])), usableScalar(in[2*n+i]))
							for j := 0; j < i; j++ {
								c = append(c, Not(Eq(in[2*i], in[2*j])))
							}
						}
						return And(c...)
					},
					reject: func(in []*Term) *Term { return neq(in, 3*n, sum(in)) },
					call: func(m *Machine, in []*Term) ([]*Term, bool) {
						aff := func(x, y *Term) Value { return Struct{EmuEl{x, pMod}, EmuEl{y, pMod}} }
						var ps, ss []Value
						for i := 0; i < n; i++ {
							ps = append(ps, aff(in[2*i], in[2*i+1]))
							ss = append(ss, EmuEl{in[2*n+i], rMod})
						}
						return nil, isErr(m.mainCall(fn, m.apiVal(), ps, ss, aff(in[3*n], in[3*n+1])))
					},
					goCode: fmt.Sprintf(`//import "github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
//import "github.com/consensys/gnark/std/math/emulated"
	n := %d
	var ps []sw_emulated.AffinePoint[emulated.BN254Fp]
	var ss []emulated.Element[emulated.BN254Fr]
	aff := func(x, y *big.Int) sw_emulated.AffinePoint[emulated.BN254Fp] {
		return sw_emulated.AffinePoint[emulated.BN254Fp]{X: emulated.ValueOf[emulated.BN254Fp](x), Y: emulated.ValueOf[emulated.BN254Fp](y)}
	}
	for i := 0; i < n; i++ {
		ps = append(ps, aff(a[2*i], a[2*i+1]))
		ss = append(ss, emulated.ValueOf[emulated.BN254Fr](a[2*n+i]))
	}
	e := aff(a[3*n], a[3*n+1])
	%s`, n, code),
					vals: withClaim(func(r *rand.Rand, ins []In) []*big.Int {
						v := pointVals(false)(r, ins)
						for i := 0; i < n; i++ { // unrelated points: gnark's additions are incomplete
							p := randPoint(r)
							v[2*i], v[2*i+1] = p.x, p.y
						}
						return v
					}, func(v []*big.Int) cpt {
						var acc cpt
						for i := 0; i < n; i++ {
							acc = acc.add(cpt{v[2*i], v[2*i+1]}.mul(v[2*n+i]))
						}
						return norm(acc)
					}),
					noTrace: n > 2,
					traces:  3,
				})
			}
		}
		ck.Gadgets(gs...)
	})

	prop("C17", func(ck *Check) {
		ck.bound("every on-curve point, every 256-bit scalar, every claimed coordinate pair in [0,p)")
		ck.assumption("gnark-crypto's G1Affine implements the group law")
		g1 := func(x, y *Term) Ptr { return ptrTo(Struct{FieldEl{x, pMod}, FieldEl{y, pMod}}) }
		rd := func(m *Machine, p Ptr) []*Term {
			s := (*p).(Struct)
			return []*Term{elOf(m, s[0]).t, elOf(m, s[1]).t}
		}
		k256 := append(append(ptIns("p"), In{name: "k", kind: KU256}), claim...)
		mk := `g1 := func(i int) *bn254.G1Affine { p := &bn254.G1Affine{}; p.X.SetBigInt(a[i]); p.Y.SetBigInt(a[i+1]); return p }
	show := func(ps ...*bn254.G1Affine) { for _, p := range ps { x, y := new(big.Int), new(big.Int); p.X.BigInt(x); p.Y.BigInt(y); outs = append(outs, vfRaw(x.String()), vfRaw(y.String())) } }
	`
		mul := func(in []*Term) *LC { return lcScale(pointOf(in[0], in[1]), in[2]) }
		msm := func(circ bool) *Gadget {
			key, call := "VerifyBN256Msm", "VerifyBN256Msm(api, p, k, res)"
			if circ {
				key, call = "BN256MsmCircuit", "(&BN256MsmCircuit{G1Point: p, Scalar: k, Res: res}).Define(api)"
			}
			return &Gadget{key: key, ins: k256, sound: true, compl: true, dom: onc,
				pre:    func(in []*Term) *Term { return Not(neq(in, 3, mul(in))) },
				reject: func(in []*Term) *Term { return neq(in, 3, mul(in)) },
				call: func(m *Machine, in []*Term) ([]*Term, bool) {
					p, k, res := g1(in[0], in[1]), newBig(in[2]), g1(in[3], in[4])
					var e Value
					if circ {
						e = m.defineCall("BN256MsmCircuit", map[string]Value{"G1Point": p, "Scalar": k, "Res": res})
					} else {
						e = m.mainCall("VerifyBN256Msm", m.apiVal(), p, k, res)
					}
					if isErr(e) {
						return nil, true
					}
					return append(append(rd(m, p), m.bigOf(k)), rd(m, res)...), false
				},
				goCode: `//import "github.com/consensys/gnark-crypto/ecc/bn254"
	` + mk + `p, k, res := g1(0), new(big.Int).Set(a[2]), g1(3)
	if err = ` + call + `; err != nil { return nil, err }
	show(p)
	outs = append(outs, vfRaw(k.String()))
	show(res)
	return outs, nil`,
				outs: func(in []*Term) []*Term { return in },
				vals: withClaim(func(r *rand.Rand, ins []In) []*big.Int {
					p := randPoint(r)
					k := randBelow(r, two256)
					if r.Intn(3) == 0 {
						k = big.NewInt(int64(r.Intn(3)))
					}
					return []*big.Int{p.x, p.y, k}
				}, func(v []*big.Int) cpt { return norm(cpt{v[0], v[1]}.mul(new(big.Int).Mod(v[2], rMod))) }),
				traces: 10,
			}
		}
		add := func(circ bool) *Gadget {
			key, call := "VerifyBN256Add", "VerifyBN256Add(api, p, q, res)"
			if circ {
				key, call = "BN256AddCircuit", "(&BN256AddCircuit{G10Point: p, G11Point: q, Res: res}).Define(api)"
			}
			return &Gadget{key: key, ins: append(ptIns("p", "q"), claim...), sound: true, compl: true, dom: onc2,
				pre:    func(in []*Term) *Term { return Not(neq(in, 4, addLC(in))) },
				reject: func(in []*Term) *Term { return neq(in, 4, addLC(in)) },
				call: func(m *Machine, in []*Term) ([]*Term, bool) {
					p, q, res := g1(in[0], in[1]), g1(in[2], in[3]), g1(in[4], in[5])
					var e Value
					if circ {
						e = m.defineCall("BN256AddCircuit", map[string]Value{"G10Point": p, "G11Point": q, "Res": res})
					} else {
						e = m.mainCall("VerifyBN256Add", m.apiVal(), p, q, res)
					}
					if isErr(e) {
						return nil, true
					}
					return append(append(rd(m, p), rd(m, q)...), rd(m, res)...), false
				},
				goCode: `//import "github.com/consensys/gnark-crypto/ecc/bn254"
	` + mk + `p, q, res := g1(0), g1(2), g1(4)
	if err = ` + call + `; err != nil { return nil, err }
	show(p, q, res)
	return outs, nil`,
				outs:   func(in []*Term) []*Term { return in },
				vals:   withClaim(pointVals(true), addC),
				traces: 10,
			}
		}
		ck.Gadgets(msm(false), msm(true), add(false), add(true))
	})
}

// faults shows that a refused hint never ends in acceptance.
func (ck *Check) faults(name string, g *Gadget) {
	if ck.collect != nil {
		return
	}
	in := make([]*Term, len(g.ins))
	for i := range g.ins {
		in[i] = g.ins[i].term()
	}
	ex := ck.explorer(Adversarial)
	ex.setup = func(r *Run) { r.hintFail = true }
	var bad []int
	for _, o := range ex.Explore(func(m *Machine) (Value, interface{}) {
		if d := condOr(g.dom, in, trueT); d != trueT {
			m.assume(d, "domain")
		}
		o, r := g.call(m, in)
		return nil, gadgetState{o, r}
	}) {
		if o.kind == Unsupported || o.kind == BoundHit {
			ck.inconclusive("%s with refused hints: %s", name, o.why)
			continue
		}
		if len(o.run.faults) == 0 || o.kind != Returned || o.st.(gadgetState).rejected {
			continue
		}
		// accepted although a hint was refused: the path must be infeasible
		ck.obl++
		p := ck.prover(o.run.factTerms(nil), o.run.sub)
		if p.Prove(falseT) == Unsat {
			continue
		}
		ck.oblBad++
		for i := range o.run.hints {
			bad = append(bad, i)
		}
	}
	ck.obl++
	if len(bad) == 0 {
		return
	}
	if ck.harness == nil {
		ck.harness = newHarness(ck)
	}
	for t := 0; t < 4; t++ {
		v := ck.draw(g)
		for i := 0; i < 8; i++ {
			c := &Case{Target: g.key, Args: strs(v), Hints: []HintOverride{{Index: i, Fail: true}}}
			res := ck.harness.run(ck.code(g), []*Case{c})
			base := ck.harness.run(ck.code(g), []*Case{{Target: g.key, Args: strs(v), Record: true}})
			if len(res) == 1 && res[0].Status == "ok" && len(base) == 1 && len(base[0].Calls) > i {
				ck.violation(name+" refused hint", fmt.Sprintf("%s reports success although hint call %d was refused", name, i), map[string]interface{}{"case": c, "result": res[0]})
				return
			}
		}
	}
	ck.inconclusive("%s: a refused hint may go unnoticed (not reproduced)", name)
}
