package main

import (
	"fmt"
	"math/big"
	"math/rand"
)

func call1(name string, n int) func(m *Machine, in []*Term) ([]*Term, bool) {
	return func(m *Machine, in []*Term) ([]*Term, bool) {
		args := []Value{m.apiVal()}
		for i := 0; i < n; i++ {
			args = append(args, m.v(in[i]))
		}
		return []*Term{m.varOut(m.mainCall(name, args...))}, false
	}
}

func modAlternatives(name string, in, out []*big.Int) [][]*big.Int {
	// other (quotient, remainder) pairs a prover might answer
	if len(out) == 1 {
		var o [][]*big.Int
		for _, d := range []int64{1, 2, -1} {
			v := new(big.Int).Add(out[0], big.NewInt(d))
			o = append(o, []*big.Int{v.Mod(v, rMod)})
		}
		return o
	}
	var res [][]*big.Int
	for i := range out {
		for _, d := range []*big.Int{big1, big.NewInt(-1), big.NewInt(7), rMinus1} {
			o := append([]*big.Int(nil), out...)
			o[i] = new(big.Int).Mod(new(big.Int).Add(o[i], d), rMod)
			res = append(res, o)
		}
		o := append([]*big.Int(nil), out...)
		o[i] = big.NewInt(0)
		res = append(res, o)
		if i+1 < len(out) {
			o = append([]*big.Int(nil), out...)
			o[i], o[i+1] = o[i+1], o[i]
			res = append(res, o)
		}
		if i > 32 {
			break
		}
	}
	for _, k := range []int64{0, 1} {
		o := make([]*big.Int, len(out))
		for i := range o {
			o[i] = big.NewInt(k)
		}
		res = append(res, o)
	}
	return res
}

func init() {
	ab := []In{{name: "a", kind: KFr}, {name: "b", kind: KFr}}
	fld := func(name string, n int, out func(in []*Term) *Term) *Gadget {
		as := ""
		for i := 0; i < n; i++ {
			as += fmt.Sprintf(", a[%d]", i)
		}
		return &Gadget{
			key: name, ins: ab[:n], call: call1(name, n), sound: true, compl: true,
			goCode:   fmt.Sprintf("return []frontend.Variable{%s(api%s)}, nil", name, as),
			outs:     func(in []*Term) []*Term { return []*Term{out(in)} },
			hintHook: modAlternatives,
		}
	}
	prop("C01", func(ck *Check) {
		ck.bound("all pairs of operands in [0, 2^256), reduced or not; no loop involved")
		gs := []*Gadget{fld("fr_add", 2, func(in []*Term) *Term { return Mod(Add(in[0], in[1]), rMod) }),
			fld("fr_sub", 2, func(in []*Term) *Term { return Mod(Sub(in[0], in[1]), rMod) }),
			fld("fr_mul", 2, func(in []*Term) *Term { return Mod(Mul(in[0], in[1]), rMod) }),
			fld("fr_neg", 1, func(in []*Term) *Term { return Mod(Neg(in[0]), rMod) }),
			fld("fr_mul_neg", 2, func(in []*Term) *Term { return Mod(Neg(Mul(in[0], in[1])), rMod) })}
		for _, g := range gs {
			w := *g
			w.key += " unreduced"
			w.ins = nil
			for _, i := range g.ins {
				w.ins = append(w.ins, In{name: i.name, kind: KU256})
			}
			gs = append(gs, &w)
		}
		ck.Gadgets(gs...)
	})
	prop("C02", func(ck *Check) {
		max := 24
		if ck.tier == "thorough" {
			max = 300
		}
		ck.bound(fmt.Sprintf("every base; every power 0..%d and %v", max, "2^k, 2^k±1 for k<=10 (the power is a compile-time constant)"))
		powers := map[int]bool{}
		for i := 0; i <= max; i++ {
			powers[i] = true
		}
		for k := 5; k <= 10; k++ {
			powers[1<<k-1], powers[1<<k], powers[1<<k+1] = true, true, true
		}
		n := 0
		var gs []*Gadget
		for p := 0; p <= 2000; p++ {
			if !powers[p] {
				continue
			}
			p := p
			g := fld("fr_pow", 1, func(in []*Term) *Term { return intern(Mod(Pow(in[0], p), rMod)) })
			g.key = fmt.Sprintf("fr_pow^%d", p)
			g.goCode = fmt.Sprintf("return []frontend.Variable{fr_pow(api, a[0], big.NewInt(%d))}, nil", p)
			g.call = func(m *Machine, in []*Term) ([]*Term, bool) {
				return []*Term{m.varOut(m.mainCall("fr_pow", m.apiVal(), m.v(in[0]), m.v(CI(int64(p)))))}, false
			}
			n++
			g.noTrace = !(p <= 3 || p == 17)
			gs = append(gs, g)
		}
		ck.Gadgets(gs...)
	})
	prop("C03", func(ck *Check) {
		ck.bound("every canonical field element, every pair of hint answers")
		ck.assumption("the input is a canonical field element")
		gm := (fld("mod", 1, func(in []*Term) *Term { return in[0] }))
		// the hint itself: any integer input
		g := &Gadget{key: "modHint", ins: []In{{name: "x", kind: KBig}}, sound: true, compl: true,
			call: func(m *Machine, in []*Term) ([]*Term, bool) {
				res := []Value{newBig(CI(0)), newBig(CI(0))}
				e := m.mainCall("modHint", newBig(C(rMod)), []Value{newBig(in[0])}, res)
				return []*Term{m.bigOf(res[0]), m.bigOf(res[1])}, isErr(e)
			},
			goCode: `res := []*big.Int{new(big.Int), new(big.Int)}
	e := modHint(ecc.BN254.ScalarField(), []*big.Int{a[0]}, res)
	return []frontend.Variable{vfRaw(res[0].String()), vfRaw(res[1].String())}, e`,
			outs: func(in []*Term) []*Term { return []*Term{Div(in[0], rMod), Mod(in[0], rMod)} },
			vals: func(r *rand.Rand, ins []In) []*big.Int {
				return []*big.Int{[]*big.Int{rMinus1, rMod, new(big.Int).Mul(rMod, big.NewInt(5)), randBelow(r, pow2(300)), big.NewInt(0)}[r.Intn(5)]}
			},
		}
		ck.Gadgets(gm, g)
	})
	prop("C04", func(ck *Check) {
		ck.bound("all field elements a, b and every auxiliary quotient; every hint answer")
		ck.assumption("inputs are canonical field elements")
		ins := []In{{name: "a", kind: KFr}, {name: "b", kind: KFr}, {name: "q", kind: KFr}}
		eq := func(in []*Term) *Term { return Eq(Mod(Mul(in[1], in[2]), rMod), in[0]) }
		g := &Gadget{key: "fr_div", ins: ins, call: call1("fr_div", 3), sound: true, compl: true,
			goCode:   "return []frontend.Variable{fr_div(api, a[0], a[1], a[2])}, nil",
			pre:      func(in []*Term) *Term { return And(eq(in), Not(Eq(in[1], CI(0)))) },
			reject:   func(in []*Term) *Term { return Or(Not(eq(in)), Eq(in[1], CI(0))) },
			outs:     func(in []*Term) []*Term { return []*Term{in[2]} },
			hintHook: modAlternatives,
			vals: func(r *rand.Rand, _ []In) []*big.Int {
				b, q := randBelow(r, rMod), randBelow(r, rMod)
				a := new(big.Int).Mul(b, q)
				a.Mod(a, rMod)
				switch r.Intn(6) {
				case 0:
					return []*big.Int{big.NewInt(0), big.NewInt(0), q}
				case 1:
					return []*big.Int{big.NewInt(0), b, big.NewInt(0)}
				case 2:
					return []*big.Int{a, b, new(big.Int).Mod(new(big.Int).Add(q, big1), rMod)}
				case 3:
					return []*big.Int{a, big.NewInt(0), q}
				case 4:
					return []*big.Int{randBelow(r, rMod), b, q}
				}
				return []*big.Int{a, b, q}
			},
		}
		// the accepted quotient is a/b in the field
		h := *g
		h.key = "fr_div quotient"
		h.outs = func(in []*Term) []*Term { return []*Term{Mod(Mul(in[0], Inv(in[1], rMod)), rMod)} }
		h.isAux = func(t *Term) bool { return t == FrVar("q") }
		h.noTrace = true
		ck.Gadgets(g, &h)
	})
	prop("C05", func(ck *Check) {
		max := 31
		var lens []int
		for i := 1; i <= 40; i++ {
			lens = append(lens, i)
		}
		if ck.tier == "thorough" {
			lens = nil
			for i := 1; i <= 130; i++ {
				lens = append(lens, i)
			}
		}
		_ = max
		ck.bound(fmt.Sprintf("every byte value; lengths %v", lens))
		ck.assumption("inputs are bytes; packing is exact modulo the field order")
		var gs []*Gadget
		for _, n := range lens {
			n := n
			var ins []In
			for i := 0; i < n; i++ {
				ins = append(ins, In{name: fmt.Sprintf("b%d", i), kind: KByte})
			}
			g := &Gadget{key: fmt.Sprintf("PackUInt8Variables/%d", n), ins: ins, sound: true, compl: true,
				call: func(m *Machine, in []*Term) ([]*Term, bool) {
					var vs []Value
					for _, t := range in {
						vs = append(vs, m.v(t))
					}
					return []*Term{m.varOut(m.mainCall("PackUInt8Variables", m.apiVal(), vs))}, false
				},
				goCode: "var v []frontend.Variable\nfor _, x := range a { v = append(v, x) }\nreturn []frontend.Variable{PackUInt8Variables(api, v...)}, nil",
				outs: func(in []*Term) []*Term {
					var s []*Term
					for i, t := range in {
						s = append(s, Mul(t, C(pow2(8*(n-1-i)))))
					}
					return []*Term{Mod(Add(s...), rMod)}
				},
				noTrace: n != 1 && n != 2 && n != 5 && n < 31,
			}
			gs = append(gs, g)
		}
		ck.Gadgets(gs...)
	})
}
