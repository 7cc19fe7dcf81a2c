package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

// Env is a concrete assignment of variables.
type Env map[*Term]*big.Int

type evalFail struct{ why string }

// Eval computes a term under an assignment; predicates it cannot compute fail.
func (e Env) Eval(t *Term) (v *big.Int, err error) {
	defer func() {
		if x := recover(); x != nil {
			if f, ok := x.(evalFail); ok {
				err = fmt.Errorf("%s", f.why)
				return
			}
			panic(x)
		}
	}()
	return (&evaluator{e, map[*Term]*big.Int{}}).ev(intern(t)), nil
}

type evaluator struct {
	env  Env
	memo map[*Term]*big.Int
}

func b2i(b bool) *big.Int {
	if b {
		return big.NewInt(1)
	}
	return big.NewInt(0)
}

func (e *evaluator) ev(t *Term) *big.Int {
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.ev1(t)
	e.memo[t] = v
	return v
}

// evMod evaluates modulo k without forming large powers.
func (e *evaluator) evMod(t *Term, k *big.Int) *big.Int {
	switch t.op {
	case OPow:
		b := e.evMod(intern(t.args[0]), k)
		return new(big.Int).Exp(b, big.NewInt(int64(t.n)), k)
	case OAdd:
		s := new(big.Int)
		for _, a := range t.args {
			s.Add(s, e.evMod(intern(a), k))
		}
		return s.Mod(s, k)
	case OMul:
		s := big.NewInt(1)
		for _, a := range t.args {
			s.Mul(s, e.evMod(intern(a), k))
			s.Mod(s, k)
		}
		return s
	}
	return new(big.Int).Mod(e.ev(t), k)
}

func (e *evaluator) ev1(t *Term) *big.Int {
	if v, ok := e.env[t]; ok {
		return v
	}
	a := func(i int) *big.Int { return e.ev(intern(t.args[i])) }
	switch t.op {
	case OConst:
		return t.k
	case OBool:
		return big.NewInt(int64(t.n))
	case OVar:
		panic(evalFail{"no value for " + t.name})
	case OAdd:
		s := new(big.Int)
		for i := range t.args {
			s.Add(s, a(i))
		}
		return s
	case OMul:
		s := big.NewInt(1)
		for i := range t.args {
			s.Mul(s, a(i))
		}
		return s
	case OPow:
		if t.n > 4096 {
			panic(evalFail{"large power"})
		}
		return new(big.Int).Exp(a(0), big.NewInt(int64(t.n)), nil)
	case OMod:
		return e.evMod(intern(t.args[0]), t.k)
	case ODiv:
		return new(big.Int).Div(a(0), t.k)
	case OExt:
		v := new(big.Int).Rsh(a(0), uint(t.n))
		return v.And(v, new(big.Int).Sub(pow2(t.w), big1))
	case OCat:
		v := new(big.Int)
		off := 0
		for i := range t.args {
			v.Add(v, new(big.Int).Lsh(a(i), uint(off)))
			off += t.ws[i]
		}
		return v
	case OIte:
		if a(0).Sign() != 0 {
			return a(1)
		}
		return a(2)
	case OInv:
		x := new(big.Int).Mod(a(0), t.k)
		if x.Sign() == 0 {
			return big.NewInt(0)
		}
		return x.ModInverse(x, t.k)
	case OPX, OPY:
		p := e.lc(t.lc)
		if t.op == OPX {
			if p.inf() {
				return big.NewInt(0)
			}
			return p.x
		}
		if p.inf() {
			return big.NewInt(0)
		}
		return p.y
	case OEq:
		return b2i(a(0).Cmp(a(1)) == 0)
	case OLe:
		return b2i(a(0).Cmp(a(1)) <= 0)
	case ONot:
		return b2i(a(0).Sign() == 0)
	case OAnd:
		for i := range t.args {
			if a(i).Sign() == 0 {
				return big.NewInt(0)
			}
		}
		return big.NewInt(1)
	case OUF:
		return e.uf(t)
	case OBVar:
		switch t.name {
		case "oncurve":
			c := cpt{a(0), a(1)}
			return b2i(c.inf() || c.onCurve())
		}
		if strings.HasPrefix(t.name, "ecdsa/") {
			return b2i(ecdsaVerify(a(0), a(1), a(2), a(3), a(4)))
		}
		if t.name == "pairing" {
			var v []*big.Int
			for i := range t.args {
				v = append(v, a(i))
			}
			return b2i(pairingCheck(v))
		}
		panic(evalFail{"predicate " + t.name})
	}
	panic(evalFail{"cannot evaluate " + t.String()})
}

func (e *evaluator) lc(l *LC) cpt {
	var acc cpt
	for _, en := range l.ents {
		b := cpt{e.ev(en.b.x), e.ev(en.b.y)}
		if !b.inf() && !b.onCurve() {
			panic(evalFail{"base off the curve"})
		}
		acc = acc.add(b.mul(new(big.Int).Mod(e.ev(intern(en.c)), rMod)))
	}
	if acc.x == nil {
		return cpt{big.NewInt(0), big.NewInt(0)}
	}
	return acc
}

func (e *evaluator) uf(t *Term) *big.Int {
	switch {
	case t.name == "sha256" || t.name == "keccak256":
		var b []byte
		tot := 0
		v := new(big.Int)
		for i, a := range t.args {
			v.Add(v, new(big.Int).Lsh(e.ev(a), uint(tot)))
			tot += t.ws[i]
		}
		b = make([]byte, tot/8)
		v.FillBytes(b)
		if t.name == "sha256" {
			h := sha256.Sum256(b)
			return new(big.Int).SetBytes(h[:])
		}
		h := keccak256(b)
		return new(big.Int).SetBytes(h[:])
	case t.name == "bitlen":
		return big.NewInt(int64(e.ev(t.args[0]).BitLen()))
	}
	panic(evalFail{"function " + t.name})
}

// keccak256 (original Keccak padding).
func keccak256(in []byte) [32]byte {
	const rate = 136
	var st [25]uint64
	p := append([]byte(nil), in...)
	p = append(p, 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	for len(p) > 0 {
		for i := 0; i < rate/8; i++ {
			st[i] ^= binary.LittleEndian.Uint64(p[8*i:])
		}
		keccakF(&st)
		p = p[rate:]
	}
	var out [32]byte
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(out[8*i:], st[i])
	}
	return out
}

func keccakF(a *[25]uint64) {
	var rc uint8 = 1
	rot := [25]int{}
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x+5*y] = (t + 1) * (t + 2) / 2 % 64
		x, y = y, (2*x+3*y)%5
	}
	for r := 0; r < 24; r++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x+5*y] ^= d
			}
		}
		var b [25]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y], rot[x+5*y])
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		for j := 0; j <= 6; j++ {
			if rc&1 == 1 {
				a[0] ^= 1 << (uint(1<<uint(j)) - 1)
			}
			hi := rc >> 7
			rc <<= 1
			if hi == 1 {
				rc ^= 0x71
			}
		}
	}
}

// ---- secp256k1

type spt struct{ x, y *big.Int }

func secpAdd(a, b *spt) *spt {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		if new(big.Int).Mod(new(big.Int).Add(a.y, b.y), secpP).Sign() == 0 {
			return nil
		}
		l = new(big.Int).Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).Lsh(a.y, 1)
		l.Mul(l, d.ModInverse(d.Mod(d, secpP), secpP))
	} else {
		l = new(big.Int).Sub(b.y, a.y)
		d := new(big.Int).Sub(b.x, a.x)
		l.Mul(l, d.ModInverse(d.Mod(d, secpP), secpP))
	}
	l.Mod(l, secpP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x)
	x.Sub(x, b.x)
	x.Mod(x, secpP)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l)
	y.Sub(y, a.y)
	y.Mod(y, secpP)
	return &spt{x, y}
}

func secpMul(a *spt, k *big.Int) *spt {
	var r *spt
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = secpAdd(r, r)
		if k.Bit(i) == 1 {
			r = secpAdd(r, a)
		}
	}
	return r
}

func secpG() *spt {
	x, _ := new(big.Int).SetString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16)
	y, _ := new(big.Int).SetString("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)
	return &spt{x, y}
}

func ecdsaVerify(px, py, msg, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(secpN) >= 0 || s.Cmp(secpN) >= 0 {
		return false
	}
	si := new(big.Int).ModInverse(s, secpN)
	u := new(big.Int).Mul(msg, si)
	v := new(big.Int).Mul(r, si)
	q := secpAdd(secpMul(secpG(), u.Mod(u, secpN)), secpMul(&spt{px, py}, v.Mod(v, secpN)))
	if q == nil {
		return false
	}
	return new(big.Int).Mod(q.x, secpN).Cmp(r) == 0
}

// ecdsaSign gives a valid signature (test material only).
func ecdsaSign(d, k, msg *big.Int) (r, s *big.Int) {
	R := secpMul(secpG(), k)
	r = new(big.Int).Mod(R.x, secpN)
	s = new(big.Int).Mul(r, d)
	s.Add(s, msg)
	s.Mul(s, new(big.Int).ModInverse(k, secpN))
	return r, s.Mod(s, secpN)
}
