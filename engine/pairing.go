package main

import (
	"fmt"
	"math/big"
)

// The optimal ate pairing over BN254 in plain polynomial arithmetic
// (Fp12 = Fp[w]/(w^12 - 18 w^6 + 82)), used to evaluate the pairing predicate.

type fp12 [12]*big.Int

func f12Const(k int64) fp12 {
	var r fp12
	for i := range r {
		r[i] = new(big.Int)
	}
	r[0].SetInt64(k)
	return r
}

func (a fp12) add(b fp12) (r fp12) {
	for i := range r {
		r[i] = new(big.Int).Add(a[i], b[i])
		r[i].Mod(r[i], pMod)
	}
	return
}

func (a fp12) sub(b fp12) (r fp12) {
	for i := range r {
		r[i] = new(big.Int).Sub(a[i], b[i])
		r[i].Mod(r[i], pMod)
	}
	return
}

func (a fp12) mul(b fp12) (r fp12) {
	var t [23]*big.Int
	for i := range t {
		t[i] = new(big.Int)
	}
	x := new(big.Int)
	for i := range a {
		if a[i].Sign() == 0 {
			continue
		}
		for j := range b {
			if b[j].Sign() != 0 {
				t[i+j].Add(t[i+j], x.Mul(a[i], b[j]))
			}
		}
	}
	for i := 22; i >= 12; i-- { // w^12 = 18 w^6 - 82
		t[i].Mod(t[i], pMod)
		t[i-6].Add(t[i-6], x.Mul(t[i], big.NewInt(18)))
		t[i-12].Sub(t[i-12], x.Mul(t[i], big.NewInt(82)))
	}
	for i := range r {
		r[i] = t[i].Mod(t[i], pMod)
	}
	return
}

func (a fp12) exp(e *big.Int) fp12 {
	r := f12Const(1)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r)
		if e.Bit(i) == 1 {
			r = r.mul(a)
		}
	}
	return r
}

func (a fp12) isZero() bool {
	for _, c := range a {
		if c.Sign() != 0 {
			return false
		}
	}
	return true
}

func (a fp12) eq(b fp12) bool { return a.sub(b).isZero() }

// inv solves a*x = 1 by Gaussian elimination.
func (a fp12) inv() fp12 {
	var m [12][13]*big.Int
	for j := 0; j < 12; j++ {
		w := f12Const(0)
		w[j].SetInt64(1)
		c := a.mul(w)
		for i := 0; i < 12; i++ {
			m[i][j] = c[i]
		}
	}
	for i := 0; i < 12; i++ {
		m[i][12] = new(big.Int)
	}
	m[0][12].SetInt64(1)
	for c := 0; c < 12; c++ {
		p := c
		for p < 12 && m[p][c].Sign() == 0 {
			p++
		}
		if p == 12 {
			panic("not invertible")
		}
		m[c], m[p] = m[p], m[c]
		k := new(big.Int).ModInverse(m[c][c], pMod)
		for j := c; j <= 12; j++ {
			x := new(big.Int).Mul(m[c][j], k)
			m[c][j] = x.Mod(x, pMod)
		}
		for i := 0; i < 12; i++ {
			if i == c || m[i][c].Sign() == 0 {
				continue
			}
			k := m[i][c]
			for j := 12; j >= c; j-- {
				x := new(big.Int).Mul(m[c][j], k)
				x.Sub(m[i][j], x)
				m[i][j] = x.Mod(x, pMod)
			}
		}
	}
	var r fp12
	for i := range r {
		r[i] = m[i][12]
	}
	return r
}

type f12pt struct{ x, y fp12 }

func twist(xa, xb, ya, yb *big.Int) f12pt {
	w := func(a, b *big.Int, k int) fp12 { // (a + b*i) w^k with i = w^6 - 9
		c := f12Const(0)
		x := new(big.Int).Mul(b, big.NewInt(9))
		c[0].Sub(a, x)
		c[0].Mod(c[0], pMod)
		c[6].Set(b)
		s := f12Const(0)
		s[k].SetInt64(1)
		return c.mul(s)
	}
	return f12pt{w(xa, xb, 2), w(ya, yb, 3)}
}

// line through a and b evaluated at t, and a+b.
func lineAdd(a, b, t f12pt) (fp12, *f12pt) {
	var m fp12
	switch {
	case !a.x.eq(b.x):
		m = b.y.sub(a.y).mul(b.x.sub(a.x).inv())
	case a.y.eq(b.y):
		m = a.x.mul(a.x).mul(f12Const(3)).mul(a.y.add(a.y).inv())
	default:
		return t.x.sub(a.x), nil
	}
	x := m.mul(m).sub(a.x).sub(b.x)
	return m.mul(t.x.sub(a.x)).sub(t.y.sub(a.y)), &f12pt{x, m.mul(a.x.sub(x)).sub(a.y)}
}

func millerLoop(q, p f12pt) fp12 {
	n, _ := new(big.Int).SetString("29793968203157093288", 10)
	r := q
	f := f12Const(1)
	step := func(b f12pt) {
		l, s := lineAdd(r, b, p)
		f = f.mul(l)
		if s == nil {
			panic("pairing: degenerate addition")
		}
		r = *s
	}
	for i := 63; i >= 0; i-- {
		f = f.mul(f)
		step(r)
		if n.Bit(i) == 1 {
			step(q)
		}
	}
	q1 := f12pt{q.x.exp(pMod), q.y.exp(pMod)}
	nq2 := f12pt{q1.x.exp(pMod), f12Const(0).sub(q1.y.exp(pMod))}
	step(q1)
	l, _ := lineAdd(r, nq2, p)
	return f.mul(l)
}

var pairingMemo = map[string]bool{}

// pairingCheck decides whether the product of e(P_i, Q_i) is one; v holds
// groups of x, y, xa, xb, ya, yb.
func pairingCheck(v []*big.Int) bool {
	k := fmt.Sprint(v)
	if r, ok := pairingMemo[k]; ok {
		return r
	}
	f := f12Const(1)
	for i := 0; i+6 <= len(v); i += 6 {
		p := cpt{v[i], v[i+1]}
		if p.inf() {
			continue
		}
		if !p.onCurve() {
			panic(evalFail{"pairing operand off the curve"})
		}
		a, b := f12Const(0), f12Const(0)
		a[0].Set(p.x)
		b[0].Set(p.y)
		f = f.mul(millerLoop(twist(v[i+2], v[i+3], v[i+4], v[i+5]), f12pt{a, b}))
	}
	e := new(big.Int).Exp(pMod, big.NewInt(12), nil)
	e.Sub(e, big1)
	e.Div(e, rMod)
	r := f.exp(e).eq(f12Const(1))
	pairingMemo[k] = r
	return r
}
