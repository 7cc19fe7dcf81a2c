package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Formal linear combinations of BN254 G1 points: the symbolic group.

type Base struct {
	x, y *Term
	id   int
}
type LCEntry struct {
	c    *Term
	x, y *Term
	b    *Base
}
type LC struct {
	ents []LCEntry
	id   int
}

var (
	baseTab = map[[2]*Term]*Base{}
	bases   []*Base
	lcTab   = map[string]*LC{}
	lcInf   = newLCRaw()
)

func newLCRaw() *LC { return internLC(nil) }

func internLC(ents []LCEntry) *LC {
	sort.Slice(ents, func(i, j int) bool { return ents[i].b.id < ents[j].b.id })
	var sb strings.Builder
	for _, e := range ents {
		fmt.Fprintf(&sb, "%d:%d,", e.b.id, intern(e.c).id)
	}
	k := sb.String()
	if l, ok := lcTab[k]; ok {
		return l
	}
	l := &LC{ents: ents, id: len(lcTab) + 1}
	lcTab[k] = l
	return l
}

func getBase(x, y *Term) *Base {
	x, y = intern(x), intern(y)
	k := [2]*Term{x, y}
	if b, ok := baseTab[k]; ok {
		return b
	}
	b := &Base{x, y, len(bases) + 1}
	bases = append(bases, b)
	baseTab[k] = b
	return b
}

func lcAdd(a, b *LC) *LC {
	m := map[*Base]*Term{}
	var order []*Base
	for _, e := range a.ents {
		m[e.b] = e.c
		order = append(order, e.b)
	}
	for _, e := range b.ents {
		if c, ok := m[e.b]; ok {
			m[e.b] = intern(FAdd(c, e.c))
		} else {
			m[e.b] = e.c
			order = append(order, e.b)
		}
	}
	var out []LCEntry
	for _, bb := range order {
		c := m[bb]
		if c.op == OConst && c.k.Sign() == 0 {
			continue
		}
		out = append(out, LCEntry{c: c, b: bb})
	}
	return foldConst(internLC(out))
}

func lcScale(a *LC, s *Term) *LC {
	var out []LCEntry
	for _, e := range a.ents {
		c := intern(FMul(e.c, s))
		if c.op == OConst && c.k.Sign() == 0 {
			continue
		}
		out = append(out, LCEntry{c: c, b: e.b})
	}
	return foldConst(internLC(out))
}
func lcNeg(a *LC) *LC { return lcScale(a, CI(-1)) }

// foldConst evaluates an all-constant combination to one constant base.
func foldConst(l *LC) *LC {
	if len(l.ents) == 0 {
		return l
	}
	if len(l.ents) == 1 && l.ents[0].c.op == OConst {
		k := l.ents[0].c.k
		if k.Cmp(big1) == 0 || k.Cmp(rMinus1) == 0 {
			return l
		}
	}
	for _, e := range l.ents {
		if e.c.op != OConst || e.b.x.op != OConst || e.b.y.op != OConst {
			return l
		}
	}
	var acc cpt
	for _, e := range l.ents {
		acc = acc.add(cpt{e.b.x.k, e.b.y.k}.mul(e.c.k))
	}
	if acc.inf() {
		return lcInf
	}
	return pointOf(C(acc.x), C(acc.y))
}

// pointOf reads a coordinate pair as a group element.
func pointOf(x, y *Term) *LC {
	x, y = intern(Mod(x, pMod)), intern(Mod(y, pMod))
	if x.op == OConst && y.op == OConst {
		if x.k.Sign() == 0 && y.k.Sign() == 0 {
			return lcInf
		}
		half := new(big.Int).Rsh(pMod, 1)
		if y.k.Cmp(half) > 0 {
			b := getBase(x, C(new(big.Int).Sub(pMod, y.k)))
			return internLC([]LCEntry{{c: C(rMinus1), b: b}})
		}
		return internLC([]LCEntry{{c: CI(1), b: getBase(x, y)}})
	}
	if x.op == OPX && y.op == OPY && x.lc == y.lc {
		return x.lc
	}
	// y = -y' mod p
	ny := intern(Mod(Neg(y), pMod))
	if x.op == OPX && ny.op == OPY && x.lc == ny.lc {
		return lcNeg(x.lc)
	}
	if b, ok := baseTab[[2]*Term{x, ny}]; ok {
		return internLC([]LCEntry{{c: C(rMinus1), b: b}})
	}
	return internLC([]LCEntry{{c: CI(1), b: getBase(x, y)}})
}

func lcX(l *LC) *Term {
	if len(l.ents) == 0 {
		return CI(0)
	}
	if len(l.ents) == 1 && l.ents[0].c.op == OConst {
		k := l.ents[0].c.k
		if k.Cmp(big1) == 0 || k.Cmp(rMinus1) == 0 {
			return l.ents[0].b.x
		}
	}
	return intern(&Term{op: OPX, lc: l, lo: big0, hi: pMinus1})
}
func lcY(l *LC) *Term {
	if len(l.ents) == 0 {
		return CI(0)
	}
	if len(l.ents) == 1 && l.ents[0].c.op == OConst {
		k := l.ents[0].c.k
		if k.Cmp(big1) == 0 {
			return l.ents[0].b.y
		}
		if k.Cmp(rMinus1) == 0 {
			return intern(Mod(Neg(l.ents[0].b.y), pMod))
		}
	}
	return intern(&Term{op: OPY, lc: l, lo: big0, hi: pMinus1})
}

// OnCurve is the contract of gnark-crypto's G1Affine.IsOnCurve: y^2 = x^3+3 or (0,0).
func OnCurve(x, y *Term) *Term {
	x, y = intern(Mod(x, pMod)), intern(Mod(y, pMod))
	if x.op == OConst && y.op == OConst {
		c := cpt{x.k, y.k}
		return B(c.inf() || c.onCurve())
	}
	if (x.op == OPX && y.op == OPY && x.lc == y.lc) || pointOfGroupResult(x, y) {
		return trueT
	}
	return Pred("oncurve", x, y)
}

func pointOfGroupResult(x, y *Term) bool {
	l := pointOf(x, y)
	if len(l.ents) == 0 {
		return true
	}
	if len(l.ents) == 1 && l.ents[0].c.op == OConst {
		k := l.ents[0].c.k
		if k.Cmp(big1) == 0 || k.Cmp(rMinus1) == 0 {
			return false
		}
	}
	return true
}

func (l *LC) str(d int) string {
	var p []string
	for i, e := range l.ents {
		if i > 5 {
			p = append(p, fmt.Sprintf("…+%d", len(l.ents)-i))
			break
		}
		p = append(p, fmt.Sprintf("%s·(%s,%s)", e.c.str(d), e.b.x.str(d), e.b.y.str(d)))
	}
	return strings.Join(p, " + ")
}

// ---- concrete curve arithmetic (y^2 = x^3 + 3 over F_p), infinity = (0,0)

type cpt struct{ x, y *big.Int }

func (a cpt) inf() bool { return a.x == nil || (a.x.Sign() == 0 && a.y.Sign() == 0) }
func (a cpt) onCurve() bool {
	l := new(big.Int).Mul(a.y, a.y)
	r := new(big.Int).Exp(a.x, big.NewInt(3), pMod)
	r.Add(r, big.NewInt(3))
	l.Sub(l, r)
	return l.Mod(l, pMod).Sign() == 0
}
func (a cpt) neg() cpt {
	if a.inf() {
		return a
	}
	y := new(big.Int).Neg(a.y)
	return cpt{a.x, y.Mod(y, pMod)}
}
func (a cpt) add(b cpt) cpt {
	if a.inf() {
		return b
	}
	if b.inf() {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		s := new(big.Int).Add(a.y, b.y)
		if s.Mod(s, pMod).Sign() == 0 {
			return cpt{big.NewInt(0), big.NewInt(0)}
		}
		l = new(big.Int).Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).Lsh(a.y, 1)
		l.Mul(l, d.ModInverse(d.Mod(d, pMod), pMod))
	} else {
		l = new(big.Int).Sub(b.y, a.y)
		d := new(big.Int).Sub(b.x, a.x)
		d.Mod(d, pMod)
		l.Mul(l, d.ModInverse(d, pMod))
	}
	l.Mod(l, pMod)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x)
	x.Sub(x, b.x)
	x.Mod(x, pMod)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l)
	y.Sub(y, a.y)
	y.Mod(y, pMod)
	return cpt{x, y}
}

// mul uses Jacobian coordinates: one inversion in all.
func (a cpt) mul(k *big.Int) cpt {
	inf := cpt{big.NewInt(0), big.NewInt(0)}
	if a.inf() || k.Sign() == 0 {
		return inf
	}
	md := func(x *big.Int) *big.Int { return x.Mod(x, pMod) }
	mu := func(x, y *big.Int) *big.Int { return md(new(big.Int).Mul(x, y)) }
	su := func(x, y *big.Int) *big.Int { return md(new(big.Int).Sub(x, y)) }
	X, Y, Z := big.NewInt(0), big.NewInt(1), big.NewInt(0)
	dbl := func() {
		if Z.Sign() == 0 || Y.Sign() == 0 {
			X, Y, Z = big.NewInt(0), big.NewInt(1), big.NewInt(0)
			return
		}
		xx, yy := mu(X, X), mu(Y, Y)
		s := md(new(big.Int).Lsh(mu(X, yy), 2))
		m := md(new(big.Int).Mul(xx, big.NewInt(3)))
		x := su(mu(m, m), new(big.Int).Lsh(s, 1))
		y := su(mu(m, su(s, x)), new(big.Int).Lsh(mu(yy, yy), 3))
		Z = md(new(big.Int).Lsh(mu(Y, Z), 1))
		X, Y = x, y
	}
	for i := k.BitLen() - 1; i >= 0; i-- {
		dbl()
		if k.Bit(i) == 0 {
			continue
		}
		if Z.Sign() == 0 {
			X, Y, Z = md(new(big.Int).Set(a.x)), md(new(big.Int).Set(a.y)), big.NewInt(1)
			continue
		}
		zz := mu(Z, Z)
		h := su(mu(a.x, zz), X)
		r := su(mu(a.y, mu(zz, Z)), Y)
		if h.Sign() == 0 {
			if r.Sign() == 0 {
				dbl()
			} else {
				X, Y, Z = big.NewInt(0), big.NewInt(1), big.NewInt(0)
			}
			continue
		}
		hh := mu(h, h)
		hhh := mu(hh, h)
		v := mu(X, hh)
		x := su(su(mu(r, r), hhh), new(big.Int).Lsh(v, 1))
		Y = su(mu(r, su(v, x)), mu(Y, hhh))
		X = x
		Z = mu(Z, h)
	}
	if Z.Sign() == 0 {
		return inf
	}
	zi := new(big.Int).ModInverse(Z, pMod)
	z2 := mu(zi, zi)
	return cpt{mu(X, z2), mu(Y, mu(z2, zi))}
}
