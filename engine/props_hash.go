package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"math/rand"
)

// beWords concatenates 32-byte big-endian encodings (first element first) for hashOf.
func beWords(in []*Term) ([]*Term, []int) {
	var ps []*Term
	var ws []int
	for i := len(in) - 1; i >= 0; i-- {
		ps = append(ps, in[i])
		ws = append(ws, 256)
	}
	return ps, ws
}

func instDigest(in []*Term) *Term {
	ps, ws := beWords(in)
	return hashOf("keccak256", ps, ws)
}

func frIns(n int, pre string) []In {
	var ins []In
	for i := 0; i < n; i++ {
		ins = append(ins, In{name: fmt.Sprintf("%s%d", pre, i), kind: KFr})
	}
	return ins
}

func instGadget(n int) *Gadget {
	return &Gadget{key: fmt.Sprintf("VerifyInstanceHash/%d", n), ins: frIns(n, "inst"),
		call: func(m *Machine, in []*Term) ([]*Term, bool) {
			var vs []Value
			for _, t := range in {
				vs = append(vs, m.v(t))
			}
			r := m.mainCall("VerifyInstanceHash", m.apiVal(), vs).(Tuple)
			if isErr(r[1]) {
				return nil, true
			}
			return []*Term{m.varOut(r[0])}, false
		},
		goCode: "var v []frontend.Variable\nfor _, x := range a { v = append(v, x) }\nr, err := VerifyInstanceHash(api, v)\nreturn []frontend.Variable{r}, err",
		outs:   func(in []*Term) []*Term { return []*Term{Mod(instDigest(in), rMod)} },
		hintHook: func(name string, in, out []*big.Int) [][]*big.Int {
			var res [][]*big.Int
			n := len(out)
			if n < 65 {
				return modAlternatives(name, in, out)
			}
			tweak := func(i int, d int64) {
				o := append([]*big.Int(nil), out...)
				o[i] = new(big.Int).Mod(new(big.Int).Add(o[i], big.NewInt(d)), rMod)
				res = append(res, o)
			}
			for i := 0; i < n; i++ {
				tweak(i, 1)
			}
			// a consistent lie: other bytes hashed, with their own digest
			for j := 33; j < n; j++ {
				o := append([]*big.Int(nil), out...)
				o[j] = new(big.Int).Xor(o[j], big.NewInt(1))
				res = append(res, relie(o))
			}
			// whole words moved, and a representation larger by the field order
			for w := 0; w+1 < (n-33)/32; w++ {
				o := append([]*big.Int(nil), out...)
				for k := 0; k < 32; k++ {
					o[33+32*w+k], o[33+32*(w+1)+k] = out[33+32*(w+1)+k], out[33+32*w+k]
				}
				res = append(res, relie(o))
			}
			for w := 0; w < (n-33)/32; w++ {
				v := new(big.Int)
				for k := 0; k < 32; k++ {
					v.Lsh(v, 8).Add(v, out[33+32*w+k])
				}
				v.Add(v, rMod)
				if v.BitLen() > 256 {
					continue
				}
				o := append([]*big.Int(nil), out...)
				for k, b := range v.FillBytes(make([]byte, 32)) {
					o[33+32*w+k] = big.NewInt(int64(b))
				}
				res = append(res, relie(o))
			}
			return res
		},
	}
}

// relie makes a hint answer consistent with its own message bytes.
func relie(o []*big.Int) []*big.Int {
	var b []byte
	for _, x := range o[33:] {
		if x.BitLen() > 8 {
			return nil
		}
		b = append(b, byte(x.Int64()))
	}
	d := keccak256(b)
	o = append([]*big.Int(nil), o...)
	o[0] = new(big.Int).SetBytes(d[:])
	for i := range d {
		o[1+i] = big.NewInt(int64(d[i]))
	}
	return o
}

func u8Vals(m *Machine, ts []*Term) []Value {
	var o []Value
	for _, t := range ts {
		o = append(o, Struct{m.bigVar(t), true})
	}
	return o
}

func hashGadget(fn, kind string, n int) *Gadget {
	var ins []In
	for i := 0; i < n; i++ {
		ins = append(ins, In{name: fmt.Sprintf("m%d", i), kind: KByte})
	}
	for i := 0; i < 32; i++ {
		ins = append(ins, In{name: fmt.Sprintf("d%d", i), kind: KByte})
	}
	good := func(in []*Term) *Term {
		var b []Value
		for _, t := range in[:n] {
			b = append(b, byteVal(t))
		}
		h := hashUF(kind, b)
		var c []*Term
		for i, x := range bytesBE(h, 32) {
			c = append(c, Eq(in[n+i], byteTerm(x)))
		}
		return And(c...)
	}
	return &Gadget{key: fmt.Sprintf("%s/%d", fn, n), ins: ins, sound: true, compl: true,
		call: func(m *Machine, in []*Term) ([]*Term, bool) {
			return nil, isErr(m.mainCall(fn, m.apiVal(), u8Vals(m, in[:n]), u8Vals(m, in[n:])))
		},
		goCode: fmt.Sprintf(`//import "github.com/consensys/gnark/std/math/uints"
	var v []byte
	for _, x := range a { v = append(v, byte(x.Uint64())) }
	return nil, %s(api, uints.NewU8Array(v[:%d]), uints.NewU8Array(v[%d:]))`, fn, n, n),
		pre: good, reject: func(in []*Term) *Term { return Not(good(in)) },
		vals: func(r *rand.Rand, _ []In) []*big.Int {
			b := make([]byte, n)
			r.Read(b)
			var d [32]byte
			if kind == "sha256" {
				d = sha256.Sum256(b)
			} else {
				d = keccak256(b)
			}
			if r.Intn(2) == 0 {
				d[r.Intn(32)] ^= 1 << r.Intn(8)
			}
			var o []*big.Int
			for _, x := range append(b, d[:]...) {
				o = append(o, big.NewInt(int64(x)))
			}
			return o
		},
		traces: 2,
	}
}

func init() {
	prop("C06", func(ck *Check) {
		lens := []int{1, 2, 3, 4, 5, 6, 7, 8}
		if ck.tier == "thorough" {
			lens = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24, 32, 43}
		}
		ck.bound(fmt.Sprintf("every canonical input; input counts %v", lens))
		ck.assumption("Keccak-256 (both gnark's gadget and go-ethereum's host function) is one uninterpreted function; inputs are canonical scalar field elements; the hint answers honestly")
		var gs []*Gadget
		for _, n := range lens {
			g := instGadget(n)
			g.compl = true
			g.traces = 2
			g.noTrace = n > 5
			gs = append(gs, g)
		}
		ck.Gadgets(gs...)
	})
	prop("C07", func(ck *Check) {
		lens := []int{1, 2, 3, 4, 5}
		if ck.tier == "thorough" {
			lens = []int{1, 2, 3, 4, 5, 6, 8, 12, 16}
		}
		ck.bound(fmt.Sprintf("every canonical input and every hint answer in [0,r); input counts %v", lens))
		ck.assumption("gnark's Keccak gadget computes Keccak-256 (uninterpreted, collision-free use is not assumed)")
		var gs []*Gadget
		for _, n := range lens {
			g := instGadget(n)
			g.sound = true
			g.noTrace = n != 2
			g.traces = 1
			gs = append(gs, g)
		}
		ck.Gadgets(gs...)
	})
	prop("C08", func(ck *Check) {
		lens := []int{0, 1, 3, 31, 32, 33, 55, 56, 63, 64, 65, 100, 127, 128, 135, 136, 137, 200}
		if ck.tier == "thorough" {
			lens = nil
			for i := 0; i <= 200; i++ {
				lens = append(lens, i)
			}
			lens = append(lens, 300, 577)
		}
		ck.bound(fmt.Sprintf("every message of %v bytes and every 32-byte claimed digest", lens))
		ck.assumption("gnark's SHA-256 and Keccak gadgets compute the hash functions (uninterpreted)")
		var gs []*Gadget
		for _, n := range lens {
			a, b := hashGadget("VerifySha256", "sha256", n), hashGadget("VerifyKeccak256", "keccak256", n)
			a.noTrace = n != 1 && n != 33
			b.noTrace = a.noTrace
			gs = append(gs, a, b)
		}
		ck.Gadgets(gs...)
	})
}
