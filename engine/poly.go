package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Multivariate polynomials over Z (exact) or Z/r, with terms as atoms.

type mono struct {
	key  string
	atom []*Term
	exp  []int
}

type Poly struct {
	c map[string]*big.Int
	m map[string]*mono
}

func newPoly() *Poly { return &Poly{map[string]*big.Int{}, map[string]*mono{}} }

func mkMono(atom []*Term, exp []int) *mono {
	ix := make([]int, len(atom))
	for i := range ix {
		ix[i] = i
	}
	sort.Slice(ix, func(a, b int) bool { return atom[ix[a]].id < atom[ix[b]].id })
	mo := &mono{}
	var sb strings.Builder
	for _, i := range ix {
		if exp[i] == 0 {
			continue
		}
		mo.atom = append(mo.atom, atom[i])
		mo.exp = append(mo.exp, exp[i])
		fmt.Fprintf(&sb, "%d^%d,", atom[i].id, exp[i])
	}
	mo.key = sb.String()
	return mo
}

func (p *Poly) addTerm(m *mono, c *big.Int) {
	if c.Sign() == 0 {
		return
	}
	if o, ok := p.c[m.key]; ok {
		n := new(big.Int).Add(o, c)
		if n.Sign() == 0 {
			delete(p.c, m.key)
			delete(p.m, m.key)
		} else {
			p.c[m.key] = n
		}
		return
	}
	p.c[m.key] = c
	p.m[m.key] = m
}

func (p *Poly) clone() *Poly {
	n := newPoly()
	for k, c := range p.c {
		n.c[k] = c
		n.m[k] = p.m[k]
	}
	return n
}

func (p *Poly) add(q *Poly, s *big.Int) *Poly {
	n := p.clone()
	for k, c := range q.c {
		n.addTerm(q.m[k], new(big.Int).Mul(c, s))
	}
	return n
}

func mulMono(a, b *mono) *mono {
	if len(a.atom) == 0 {
		return b
	}
	if len(b.atom) == 0 {
		return a
	}
	m := &mono{}
	var sb strings.Builder
	i, j := 0, 0
	push := func(t *Term, e int) {
		m.atom = append(m.atom, t)
		m.exp = append(m.exp, e)
		fmt.Fprintf(&sb, "%d^%d,", t.id, e)
	}
	for i < len(a.atom) || j < len(b.atom) {
		switch {
		case j >= len(b.atom) || (i < len(a.atom) && a.atom[i].id < b.atom[j].id):
			push(a.atom[i], a.exp[i])
			i++
		case i >= len(a.atom) || b.atom[j].id < a.atom[i].id:
			push(b.atom[j], b.exp[j])
			j++
		default:
			push(a.atom[i], a.exp[i]+b.exp[j])
			i++
			j++
		}
	}
	m.key = sb.String()
	return m
}

type polyTooBig struct{}

func (pc *PolyCtx) mul(p, q *Poly) *Poly {
	n := newPoly()
	if len(p.c)*len(q.c) > pc.limit {
		panic(polyTooBig{})
	}
	for k1, c1 := range p.c {
		for k2, c2 := range q.c {
			c := new(big.Int).Mul(c1, c2)
			n.addTerm(mulMono(p.m[k1], q.m[k2]), c)
		}
	}
	return pc.reduce(n)
}

// PolyCtx converts terms to normal form modulo mod (nil: exact integers).
type PolyCtx struct {
	mod   *big.Int
	memo  map[*Term]*Poly
	limit int
	subst map[*Term]*Poly // atoms defined by polynomials
	inv   map[*Term]*Poly // canonical inverse atoms -> polynomial inverted
	nz    func(p *Poly) bool
}

func newPolyCtx(mod *big.Int) *PolyCtx {
	return &PolyCtx{mod: mod, memo: map[*Term]*Poly{}, limit: 4_000_000, inv: map[*Term]*Poly{}}
}

func (pc *PolyCtx) reduce(p *Poly) *Poly {
	if pc.mod == nil {
		return p
	}
	for k, c := range p.c {
		if c.Sign() < 0 || c.Cmp(pc.mod) >= 0 {
			c = new(big.Int).Mod(c, pc.mod)
			if c.Sign() == 0 {
				delete(p.c, k)
				delete(p.m, k)
			} else {
				p.c[k] = c
			}
		}
	}
	return p
}

func (pc *PolyCtx) constant(k *big.Int) *Poly {
	p := newPoly()
	if pc.mod != nil {
		k = new(big.Int).Mod(k, pc.mod)
	}
	p.addTerm(mkMono(nil, nil), k)
	return p
}
func (pc *PolyCtx) atom(t *Term) *Poly {
	p := newPoly()
	p.addTerm(mkMono([]*Term{t}, []int{1}), big1)
	return p
}

func (pc *PolyCtx) of(t *Term) *Poly {
	t = intern(t)
	if p, ok := pc.memo[t]; ok {
		return p
	}
	p := pc.of1(t)
	pc.memo[t] = p
	return p
}

func (pc *PolyCtx) of1(t *Term) *Poly {
	switch t.op {
	case OConst:
		return pc.constant(t.k)
	case OAdd:
		n := newPoly()
		for _, a := range t.args {
			q := pc.of(a)
			for k, c := range q.c {
				n.addTerm(q.m[k], c)
			}
		}
		return pc.reduce(n)
	case OMul:
		p := pc.of(t.args[0])
		for _, a := range t.args[1:] {
			p = pc.mul(p, pc.of(a))
		}
		return p
	case OPow:
		b := pc.of(t.args[0])
		if len(b.c) == 1 {
			for k, c := range b.c {
				mo := b.m[k]
				e := make([]int, len(mo.exp))
				for i := range e {
					e[i] = mo.exp[i] * t.n
				}
				if pc.mod != nil || t.n < 64 || c.Cmp(big1) == 0 {
					n := newPoly()
					n.addTerm(mkMono(mo.atom, e), new(big.Int).Exp(c, big.NewInt(int64(t.n)), pc.mod))
					return n
				}
			}
		}
		if t.n > 64 {
			return pc.atom(t)
		}
		p := pc.constant(big1)
		for i := 0; i < t.n; i++ {
			p = pc.mul(p, b)
		}
		return p
	case OMod:
		if pc.mod != nil && t.k.Cmp(pc.mod) == 0 {
			return pc.of(t.args[0])
		}
	case OCat:
		n := newPoly()
		off := 0
		for i, a := range t.args {
			q := pc.of(a)
			for k, c := range q.c {
				n.addTerm(q.m[k], new(big.Int).Lsh(c, uint(off)))
			}
			off += t.ws[i]
		}
		return pc.reduce(n)
	case OInv:
		if pc.mod != nil && t.k.Cmp(pc.mod) == 0 {
			return pc.invOf(pc.of(t.args[0]))
		}
	}
	return pc.atom(t)
}

// toTerm rebuilds a term from a polynomial.
func (p *Poly) toTerm() *Term {
	var ks []string
	for k := range p.c {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sum []*Term
	for _, k := range ks {
		mo := p.m[k]
		var f []*Term
		for i, a := range mo.atom {
			f = append(f, intern(Pow(a, mo.exp[i])))
		}
		f = append(f, C(p.c[k]))
		sum = append(sum, Mul(f...))
	}
	return Add(sum...)
}

func (p *Poly) lead() string {
	best := ""
	first := true
	for k := range p.c {
		if first || len(k) > len(best) || (len(k) == len(best) && k > best) {
			best = k
			first = false
		}
	}
	return best
}

// invOf returns the inverse of p as (inverse constant) * canonical inverse atoms.
func (pc *PolyCtx) invOf(p *Poly) *Poly {
	if len(p.c) == 0 {
		return newPoly()
	}
	lk := p.lead()
	lc := p.c[lk]
	il := new(big.Int).ModInverse(lc, pc.mod)
	n := newPoly()
	for k, c := range p.c {
		v := new(big.Int).Mul(c, il)
		n.addTerm(p.m[k], v.Mod(v, pc.mod))
	}
	if len(n.c) == 1 { // single monomial
		mo := n.m[lk]
		r := newPoly()
		var at []*Term
		var ex []int
		for i, a := range mo.atom {
			if a.op == OInv {
				if q, ok := pc.inv[a]; ok && len(q.c) == 1 && len(q.m[q.lead()].atom) == 1 {
					at = append(at, q.m[q.lead()].atom[0])
					ex = append(ex, mo.exp[i])
					continue
				}
			}
			ia := intern(&Term{op: OInv, args: []*Term{a}, k: pc.mod, lo: big0, hi: new(big.Int).Sub(pc.mod, big1)})
			pc.inv[ia] = pc.atom(a)
			at = append(at, ia)
			ex = append(ex, mo.exp[i])
		}
		r.addTerm(mkMono(at, ex), il)
		return r
	}
	ia := intern(&Term{op: OInv, args: []*Term{n.toTerm()}, k: pc.mod, lo: big0, hi: new(big.Int).Sub(pc.mod, big1)})
	pc.inv[ia] = n
	r := newPoly()
	r.addTerm(mkMono([]*Term{ia}, []int{1}), il)
	return r
}

// clearInv multiplies p by enough powers of the inverted polynomials to remove
// every inverse atom; p = 0 iff the result = 0 when the inverted values are non-zero.
func (pc *PolyCtx) clearInv(p *Poly) *Poly {
	for round := 0; round < 60; round++ {
		// pick an inverse atom, outermost (highest id) first
		var ia *Term
		max := 0
		for k := range p.c {
			mo := p.m[k]
			for i, a := range mo.atom {
				if _, ok := pc.inv[a]; ok {
					if ia == nil || a.id > ia.id {
						ia, max = a, mo.exp[i]
					} else if a == ia && mo.exp[i] > max {
						max = mo.exp[i]
					}
				}
			}
		}
		if ia == nil {
			return p
		}
		q := pc.inv[ia]
		pw := []*Poly{pc.constant(big1)}
		for i := 1; i <= max; i++ {
			pw = append(pw, pc.mul(pw[i-1], q))
		}
		parts := map[int]*Poly{}
		for k, c := range p.c {
			mo := p.m[k]
			e := 0
			var at []*Term
			var ex []int
			for i, a := range mo.atom {
				if a == ia {
					e = mo.exp[i]
				} else {
					at = append(at, a)
					ex = append(ex, mo.exp[i])
				}
			}
			if parts[e] == nil {
				parts[e] = newPoly()
			}
			parts[e].addTerm(mkMono(at, ex), c)
		}
		n := newPoly()
		for e, q := range parts {
			t := pc.mul(q, pw[max-e])
			for k, c := range t.c {
				n.addTerm(t.m[k], c)
			}
		}
		p = pc.reduce(n)
	}
	return p
}

// linearIn splits p = a*v + b with a,b free of v; ok=false if v is not linear.
func (p *Poly) linearIn(v *Term) (a, b *Poly, ok bool) {
	a, b = newPoly(), newPoly()
	found := false
	for k, c := range p.c {
		mo := p.m[k]
		e := 0
		var at []*Term
		var ex []int
		for i, t := range mo.atom {
			if t == v {
				e = mo.exp[i]
				continue
			}
			if t.op != OVar && occurs(v, t) {
				return nil, nil, false
			}
			at = append(at, t)
			ex = append(ex, mo.exp[i])
		}
		switch e {
		case 0:
			b.addTerm(mo, c)
		case 1:
			found = true
			a.addTerm(mkMono(at, ex), c)
		default:
			return nil, nil, false
		}
	}
	return a, b, found
}

func safePoly(pc *PolyCtx, t *Term) (p *Poly, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(polyTooBig); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	return pc.of(t), true
}
