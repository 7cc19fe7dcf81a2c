package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions: the documented contracts of the Go standard
// library, gnark, gnark-crypto and go-ethereum used by the code under test.

const (
	pGnark  = "github.com/consensys/gnark/"
	pCrypto = "github.com/consensys/gnark-crypto/"
	pBN254  = "github.com/consensys/gnark-crypto/ecc/bn254"
	pEth    = "github.com/ethereum/go-ethereum/"
	pEmu    = pGnark + "std/math/emulated"
	pSW     = pGnark + "std/algebra/emulated/sw_emulated"
	pSWBN   = pGnark + "std/algebra/emulated/sw_bn254"
	pUints  = pGnark + "std/math/uints"
)

var models = map[string]Handler{}
var prefixModels []struct {
	prefix string
	h      Handler
}

func model(name string, h Handler) { models[name] = h }
func modelPrefix(p string, h Handler) {
	prefixModels = append(prefixModels, struct {
		prefix string
		h      Handler
	}{p, h})
}

// ErrObj is an error value produced by a model.
type ErrObj struct{ msg string }

func (e *ErrObj) Invoke(m *Machine, method string, args []Value) Value {
	switch method {
	case "Error":
		return e.msg
	}
	return unsup("method %s of error", method)
}

func (m *Machine) mkErr(msg string) Iface { return Iface{t: m.prog.errType, v: &ErrObj{msg}} }

func modelImplements(v Value, t types.Type) bool {
	if _, ok := v.(*ErrObj); ok {
		return types.Identical(t.Underlying(), types.Universe.Lookup("error").Type().Underlying()) || t.Underlying().(*types.Interface).NumMethods() == 0
	}
	if a, ok := v.(*APIModel); ok {
		_ = a
		n := namedPath(t)
		return strings.HasPrefix(n, pGnark+"frontend.") && !strings.Contains(n, "Committer") && !strings.Contains(n, "Rangechecker")
	}
	return false
}

func (m *Machine) opaqueZero(n *types.Named) Value {
	switch p := namedPath(n); p {
	case "math/big.Int":
		return BigInt{CI(0)}
	case pBN254 + "/fp.Element":
		return FieldEl{CI(0), pMod}
	case pBN254 + "/fr.Element":
		return FieldEl{CI(0), rMod}
	case pEmu + ".Element":
		return EmuEl{nil, emuModulus(n.TypeArgs())}
	case pEth + "crypto/bn256/cloudflare.G1", pEth + "crypto/bn256/google.G1", pEth + "crypto/bn256/gnark.G1":
		return G1Host{}
	case "bytes.Buffer", "strings.Builder":
		return BufV{}
	case "sync.Mutex", "sync.Once", "sync.RWMutex":
		return Struct{}
	case "regexp.Regexp":
		return (*regexp.Regexp)(nil)
	case pSWBN + ".G2Affine":
		return G2Sym{}
	}
	return nil
}

type G2Sym struct{ xa, xb, ya, yb *Term }

var secpP, _ = new(big.Int).SetString("115792089237316195423570985008687907853269984665640564039457584007908834671663", 10)
var secpN, _ = new(big.Int).SetString("115792089237316195423570985008687907852837564279074904382605163141518161494337", 10)

func modulusByName(n string) *big.Int {
	i := strings.LastIndexByte(n, '.')
	switch n[i+1:] {
	case "BN254Fp":
		return pMod
	case "BN254Fr":
		return rMod
	case "Secp256k1Fp":
		return secpP
	case "Secp256k1Fr":
		return secpN
	}
	return nil
}

func emuModulus(ta *types.TypeList) *big.Int {
	if ta == nil || ta.Len() == 0 {
		return nil
	}
	return modulusByName(namedPath(ta.At(0)))
}

func (m *Machine) bigOf(v Value) *Term {
	p := m.deref(v)
	b, ok := (*p).(BigInt)
	if !ok {
		unsup("not a big.Int: %T", *p)
	}
	return m.run.sub.shallow(b.t)
}

func newBig(t *Term) Ptr {
	p := new(Value)
	*p = BigInt{t}
	return p
}

func (m *Machine) bigVar(t *Term) Iface { return Iface{t: m.prog.bigPtr, v: newBig(t)} }

func setBig(recv Value, t *Term, m *Machine) Value {
	p := m.deref(recv)
	*p = BigInt{t}
	return p
}

func nonNeg(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }

func byteTerm(v Value) *Term {
	switch v := v.(type) {
	case uint64:
		return CI(int64(v))
	case *Term:
		return v
	}
	unsup("byte %T", v)
	return nil
}

func byteVal(t *Term) Value {
	if t.op == OConst {
		return t.k.Uint64()
	}
	return t
}

// bytesBE returns n big-endian bytes of a term < 256^n.
func bytesBE(t *Term, n int) []Value {
	out := make([]Value, n)
	for i := 0; i < n; i++ {
		out[n-1-i] = byteVal(Ext(t, 8*i, 8))
	}
	return out
}

func fromBytesBE(b []Value) *Term {
	var parts []*Term
	var ws []int
	for i := len(b) - 1; i >= 0; i-- {
		parts = append(parts, byteTerm(b[i]))
		ws = append(ws, 8)
	}
	return Cat(parts, ws)
}

func errOK(m *Machine) Iface { return Iface{} }

func (m *Machine) absTerm(t *Term) *Term {
	if nonNeg(t) {
		return t
	}
	if t.op == OConst {
		return C(new(big.Int).Abs(t.k))
	}
	if m.decide(normBool(Le(CI(0), t)), nil, nil) {
		return m.nonNegView(t)
	}
	return m.nonNegView(Neg(t))
}

// nonNegView introduces a non-negative alias of t (t >= 0 is on the path).
func (m *Machine) nonNegView(t *Term) *Term {
	if nonNeg(t) {
		return t
	}
	v := m.run.freshVar("abs", big0, t.hi)
	m.run.facts = append(m.run.facts, Fact{Eq(v, t), "assume", "abs"})
	return v
}

// bitLenGE etc. are expressed through comparisons
func (m *Machine) bitLen(t *Term) Value {
	if t.op == OConst {
		return uint64(t.k.BitLen())
	}
	var hi *big.Int
	if t.hi != nil {
		hi = big.NewInt(int64(t.hi.BitLen()))
	}
	return UF("bitlen", big0, hi, t)
}

func cmpTerm(a, b *Term) Value {
	if a == b {
		return uint64(0)
	}
	lt, eq := Lt(a, b), Eq(a, b)
	t := Ite(lt, CI(-1), Ite(eq, CI(0), CI(1)))
	if t.op == OConst {
		return trunc(uint64(t.k.Int64()), 64)
	}
	return t
}

func init() {
	initBig()
	initField()
	initText()
	initGnark()
	initCurveModels()
}

func initBig() {
	model("math/big.NewInt", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return newBig(asTerm(a[0], types.Typ[types.Int64]))
	})
	modelPrefix("(*math/big.Int).", bigMethod)
	modelPrefix("math/big.", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return unsup("%s", fn)
	})
}

func bigMethod(m *Machine, fn *ssa.Function, a []Value) Value {
	t := func(i int) *Term { return m.bigOf(a[i]) }
	name := fn.Name()
	pos := func(x *Term) *big.Int {
		if x.op != OConst || x.k.Sign() <= 0 {
			if x.op == OConst && x.k.Sign() == 0 {
				m.goPanic("division by zero")
			}
			unsup("big.%s by non-constant", name)
		}
		return x.k
	}
	switch name {
	case "Add":
		return setBig(a[0], Add(t(1), t(2)), m)
	case "Sub":
		return setBig(a[0], Sub(t(1), t(2)), m)
	case "Mul":
		x, y := t(1), t(2)
		return setBig(a[0], Mul(x, y), m)
	case "Mod":
		return setBig(a[0], Mod(t(1), pos(t(2))), m)
	case "Div":
		return setBig(a[0], Div(t(1), pos(t(2))), m)
	case "DivMod":
		x, y := t(1), pos(t(2))
		setBig(a[3], Mod(x, y), m)
		setBig(a[0], Div(x, y), m)
		return Tuple{a[0], a[3]}
	case "Quo", "Rem", "QuoRem":
		x, y := t(1), pos(t(2))
		if !nonNeg(x) {
			if x.op == OConst {
				q, r := new(big.Int).QuoRem(x.k, y, new(big.Int))
				if name == "Quo" {
					return setBig(a[0], C(q), m)
				}
				if name == "Rem" {
					return setBig(a[0], C(r), m)
				}
			}
			unsup("big.%s of possibly negative", name)
		}
		switch name {
		case "Quo":
			return setBig(a[0], Div(x, y), m)
		case "Rem":
			return setBig(a[0], Mod(x, y), m)
		}
		setBig(a[3], Mod(x, y), m)
		setBig(a[0], Div(x, y), m)
		return Tuple{a[0], a[3]}
	case "Exp":
		x, y := t(1), t(2)
		var md *big.Int
		if p, ok := a[3].(Ptr); ok && p != nil {
			if mt := m.bigOf(p); mt.op == OConst {
				md = mt.k
			} else {
				unsup("big.Exp symbolic modulus")
			}
		}
		if md != nil && md.Sign() == 0 {
			md = nil
		}
		if y.op != OConst {
			unsup("big.Exp symbolic exponent")
		}
		if y.k.Sign() < 0 {
			unsup("big.Exp negative exponent")
		}
		if x.op == OConst {
			return setBig(a[0], C(new(big.Int).Exp(x.k, y.k, md)), m)
		}
		if md != nil && y.k.Cmp(new(big.Int).Sub(md, big.NewInt(2))) == 0 && (md.Cmp(rMod) == 0 || md.Cmp(pMod) == 0) {
			return setBig(a[0], Inv(x, md), m)
		}
		if !y.k.IsInt64() || y.k.Int64() > 1<<32 {
			unsup("big.Exp huge exponent")
		}
		e := intern(Pow(x, int(y.k.Int64())))
		if md != nil {
			e = intern(Mod(e, md))
		}
		return setBig(a[0], e, m)
	case "ModInverse":
		x, md := t(1), t(2)
		if md.op != OConst {
			unsup("ModInverse symbolic modulus")
		}
		if x.op == OConst {
			r := new(big.Int).ModInverse(x.k, md.k)
			if r == nil {
				return Ptr(nil)
			}
			return setBig(a[0], C(r), m)
		}
		if m.decide(normBool(Eq(Mod(x, md.k), CI(0))), fn, nil) {
			return Ptr(nil)
		}
		return setBig(a[0], Inv(x, md.k), m)
	case "Neg":
		return setBig(a[0], Neg(t(1)), m)
	case "Abs":
		return setBig(a[0], m.absTerm(t(1)), m)
	case "Set":
		x := t(1)
		return setBig(a[0], x, m)
	case "SetInt64":
		return setBig(a[0], asTerm(a[1], types.Typ[types.Int64]), m)
	case "SetUint64":
		return setBig(a[0], asTerm(a[1], types.Typ[types.Uint64]), m)
	case "SetString":
		base := int(m.concInt(a[2]))
		x, ok := m.parseInt(a[1], base)
		if !ok {
			return Tuple{Ptr(nil), false}
		}
		return Tuple{setBig(a[0], x, m), true}
	case "SetBytes":
		return setBig(a[0], fromBytesBE(a[1].([]Value)), m)
	case "SetBit":
		x, i, b := t(1), m.concInt(a[2]), a[3]
		bt := asTerm(b, types.Typ[types.Uint])
		if !nonNeg(x) || x.hi == nil {
			unsup("SetBit")
		}
		n := x.hi.BitLen()
		if n <= int(i) {
			n = int(i) + 1
		}
		return setBig(a[0], Cat([]*Term{Ext(x, 0, int(i)), bt, Ext(x, int(i)+1, n-int(i)-1)}, []int{int(i), 1, n - int(i) - 1}), m)
	case "Bytes":
		return m.minBytes(t(0))
	case "FillBytes":
		x := m.absTerm(t(0))
		buf := a[1].([]Value)
		if !m.decide(normBool(Lt(x, C(pow2(8*len(buf))))), fn, nil) {
			m.goPanic("math/big: buffer too small to fit value")
		}
		for i, b := range bytesBE(x, len(buf)) {
			buf[i] = b
		}
		return buf
	case "Cmp", "CmpAbs":
		x, y := t(0), t(1)
		if name == "CmpAbs" {
			x, y = m.absTerm(x), m.absTerm(y)
		}
		return cmpTerm(x, y)
	case "Sign":
		return cmpTerm(t(0), CI(0))
	case "IsUint64":
		x := t(0)
		return normBool(And(Le(CI(0), x), Le(x, C(new(big.Int).Sub(two64, big1)))))
	case "IsInt64":
		x := t(0)
		return normBool(And(Le(C(new(big.Int).Neg(pow2(63))), x), Le(x, C(new(big.Int).Sub(pow2(63), big1)))))
	case "Uint64":
		return m.wrap(m.absTerm(t(0)), types.Typ[types.Uint64])
	case "Int64":
		return m.wrap(t(0), types.Typ[types.Int64])
	case "BitLen":
		return m.bitLen(m.absTerm(t(0)))
	case "Bit":
		x, i := t(0), m.concInt(a[1])
		if i < 0 {
			m.goPanic("negative bit index")
		}
		return m.conc(Ext(m.absTerm(x), int(i), 1), types.Typ[types.Uint])
	case "Lsh":
		return setBig(a[0], Mul(t(1), C(pow2(int(m.concInt(a[2]))))), m)
	case "Rsh":
		return setBig(a[0], Div(t(1), pow2(int(m.concInt(a[2])))), m)
	case "And":
		x, y := t(1), t(2)
		if x.op == OConst && y.op == OConst {
			return setBig(a[0], C(new(big.Int).And(x.k, y.k)), m)
		}
		if x.op == OConst {
			x, y = y, x
		}
		if y.op == OConst && y.k.Sign() >= 0 && nonNeg(x) {
			return setBig(a[0], maskBits(x, y.k), m)
		}
	case "Or", "Xor":
		x, y := t(1), t(2)
		if x.op == OConst && y.op == OConst {
			if name == "Or" {
				return setBig(a[0], C(new(big.Int).Or(x.k, y.k)), m)
			}
			return setBig(a[0], C(new(big.Int).Xor(x.k, y.k)), m)
		}
		if r := disjointBits(x, y); r != nil {
			return setBig(a[0], r, m)
		}
	case "String":
		if p, ok := a[0].(Ptr); ok && p == nil {
			return "<nil>"
		}
		x := t(0)
		if x.op == OConst {
			return x.k.String()
		}
		return &FmtStr{x, 10}
	case "Text":
		x, b := t(0), int(m.concInt(a[1]))
		if x.op == OConst {
			return x.k.Text(b)
		}
		return &FmtStr{x, b}
	case "Int64OK":
	}
	return unsup("big.Int.%s", name)
}

// minBytes is big.Int.Bytes: minimal big-endian encoding, one path per length.
func (m *Machine) minBytes(x *Term) Value {
	x = m.absTerm(x)
	if x.hi == nil {
		return unsup("Bytes of unbounded value")
	}
	n := (x.hi.BitLen() + 7) / 8
	for n > 0 {
		if m.decide(normBool(Le(C(pow2(8*(n-1))), x)), nil, nil) {
			return bytesBE(x, n)
		}
		n--
		// x < 256^n on this path; bytesBE only reads the low n bytes
	}
	return []Value{}
}

// ---------------------------------------------------------------- field elements

func elOf(m *Machine, v Value) FieldEl {
	switch v := v.(type) {
	case FieldEl:
		return v
	case Ptr:
		e, ok := (*m.deref(v)).(FieldEl)
		if !ok {
			unsup("not a field element: %T", *v)
		}
		return FieldEl{m.run.sub.shallow(e.t), e.mod}
	}
	unsup("not a field element: %T", v)
	return FieldEl{}
}

func setEl(m *Machine, recv Value, t *Term, mod *big.Int) Value {
	p := m.deref(recv)
	*p = FieldEl{intern(Mod(t, mod)), mod}
	return p
}

func initField() {
	for _, f := range []struct {
		n   string
		mod *big.Int
	}{{"fp", pMod}, {"fr", rMod}} {
		mod := f.mod
		base := pBN254 + "/" + f.n
		h := func(m *Machine, fn *ssa.Function, a []Value) Value { return fieldMethod(m, fn, a, mod) }
		modelPrefix("(*"+base+".Element).", h)
		modelPrefix("("+base+".Element).", h)
		model(base+".Modulus", func(m *Machine, fn *ssa.Function, a []Value) Value { return newBig(C(mod)) })
		model(base+".NewElement", func(m *Machine, fn *ssa.Function, a []Value) Value {
			return FieldEl{intern(Mod(asTerm(a[0], types.Typ[types.Uint64]), mod)), mod}
		})
		model(base+".One", func(m *Machine, fn *ssa.Function, a []Value) Value { return FieldEl{CI(1), mod} })
	}
}

// varTerm reads a frontend.Variable-like interface as an integer; ok=false when
// the dynamic type is not accepted.
func (m *Machine) varTerm(v Iface) (*Term, bool) {
	if v.t == nil {
		return nil, false
	}
	switch x := v.v.(type) {
	case Ptr:
		if x == nil {
			return nil, false
		}
		switch e := (*x).(type) {
		case BigInt:
			return m.run.sub.shallow(e.t), true
		case FieldEl:
			return m.run.sub.shallow(e.t), true
		}
		return nil, false
	case BigInt:
		return m.run.sub.shallow(x.t), true
	case FieldEl:
		return m.run.sub.shallow(x.t), true
	case uint64:
		return asTerm(x, v.t), true
	case *Term:
		if x.isBool {
			return nil, false
		}
		return m.run.sub.shallow(x), true
	case string, *SymStr, *FmtStr:
		t, ok := m.parseInt(x, 0)
		return t, ok
	case []Value:
		if sl, ok := v.t.Underlying().(*types.Slice); ok && intIs(sl.Elem(), types.Uint8) {
			return fromBytesBE(x), true
		}
	}
	return nil, false
}

func fieldMethod(m *Machine, fn *ssa.Function, a []Value, mod *big.Int) Value {
	el := func(i int) *Term { return elOf(m, a[i]).t }
	switch fn.Name() {
	case "SetInterface":
		v := a[1].(Iface)
		if _, isOpaque := v.v.(*OpaqueVar); isOpaque {
			if m.run.onBadAssert != nil {
				m.run.onBadAssert(fn, nil, v)
			}
			return Tuple{Ptr(nil), m.mkErr("can't set field.Element from circuit variable")}
		}
		t, ok := m.varTerm(v)
		if e, is := derefAny(v.v).(FieldEl); is && e.mod.Cmp(mod) != 0 {
			ok = false
		}
		if !ok {
			return Tuple{Ptr(nil), m.mkErr("can't set field.Element")}
		}
		return Tuple{setEl(m, a[0], t, mod), Iface{}}
	case "SetBigInt", "setBigInt":
		return setEl(m, a[0], m.bigOf(a[1]), mod)
	case "SetString":
		t, ok := m.parseInt(a[1], 0)
		if !ok {
			return Tuple{Ptr(nil), m.mkErr("invalid string")}
		}
		return Tuple{setEl(m, a[0], t, mod), Iface{}}
	case "SetBytes":
		return setEl(m, a[0], fromBytesBE(a[1].([]Value)), mod)
	case "SetBytesCanonical":
		b := a[1].([]Value)
		t := fromBytesBE(b)
		if len(b) != 32 {
			return m.mkErr("invalid encoding")
		}
		if !m.decide(normBool(Lt(t, C(mod))), fn, nil) {
			return m.mkErr("invalid encoding")
		}
		setEl(m, a[0], t, mod)
		return Iface{}
	case "SetUint64":
		return setEl(m, a[0], asTerm(a[1], types.Typ[types.Uint64]), mod)
	case "SetInt64":
		return setEl(m, a[0], asTerm(a[1], types.Typ[types.Int64]), mod)
	case "Set":
		return setEl(m, a[0], el(1), mod)
	case "SetZero":
		return setEl(m, a[0], CI(0), mod)
	case "SetOne":
		return setEl(m, a[0], CI(1), mod)
	case "Add":
		return setEl(m, a[0], Add(el(1), el(2)), mod)
	case "Sub":
		return setEl(m, a[0], Sub(el(1), el(2)), mod)
	case "Mul":
		return setEl(m, a[0], Mul(el(1), el(2)), mod)
	case "Neg":
		return setEl(m, a[0], Neg(el(1)), mod)
	case "Double":
		return setEl(m, a[0], Mul(el(1), CI(2)), mod)
	case "Square":
		x := el(1)
		return setEl(m, a[0], Mul(x, x), mod)
	case "Inverse":
		return setEl(m, a[0], Inv(el(1), mod), mod)
	case "Div":
		return setEl(m, a[0], Mul(el(1), Inv(el(2), mod)), mod)
	case "Equal":
		return normBool(Eq(el(0), el(1)))
	case "NotEqual":
		if m.decide(normBool(Eq(el(0), el(1))), fn, nil) {
			return uint64(0)
		}
		return uint64(1)
	case "IsZero":
		return normBool(Eq(el(0), CI(0)))
	case "IsOne":
		return normBool(Eq(el(0), CI(1)))
	case "IsUint64":
		return normBool(Le(el(0), C(new(big.Int).Sub(two64, big1))))
	case "Cmp":
		return cmpTerm(el(0), el(1))
	case "BigInt", "ToBigIntRegular", "ToBigInt", "toBigInt":
		return setBig(a[1], el(0), m)
	case "Bytes":
		return Array(bytesBE(el(0), 32))
	case "Marshal":
		return bytesBE(el(0), 32)
	case "String", "Text":
		x := el(0)
		b := 10
		if fn.Name() == "Text" {
			b = int(m.concInt(a[1]))
		}
		if x.op == OConst {
			return x.k.Text(b)
		}
		return &FmtStr{x, b}
	}
	return unsup("field method %s", fn)
}

func derefAny(v Value) Value {
	if p, ok := v.(Ptr); ok && p != nil {
		return *p
	}
	return v
}

// ---------------------------------------------------------------- text, errors, misc

// hashUF is the value of a hash as a 256-bit integer over canonical chunks.
func hashUF(kind string, b []Value) *Term {
	var parts []*Term
	var ws []int
	for i := len(b) - 1; i >= 0; i-- {
		parts = append(parts, byteTerm(b[i]))
		ws = append(ws, 8)
	}
	return hashOf(kind, parts, ws)
}

// hashOf hashes a concatenation (least significant part first).
func hashOf(kind string, parts []*Term, ws []int) *Term {
	// canonical form: split into single bytes / atoms, then merge
	var ep []*Term
	var ew []int
	for i, p := range parts {
		p = intern(p)
		switch {
		case p.op == OCat:
			off := 0
			for j, a := range p.args {
				ep = append(ep, a)
				ew = append(ew, p.ws[j])
				off += p.ws[j]
			}
			if off < ws[i] {
				ep = append(ep, CI(0))
				ew = append(ew, ws[i]-off)
			}
		case p.hi != nil && p.hi.BitLen() < ws[i] && p.op != OConst && p.hi.BitLen() > 0:
			ep = append(ep, p, CI(0))
			ew = append(ew, p.hi.BitLen(), ws[i]-p.hi.BitLen())
		default:
			ep = append(ep, p)
			ew = append(ew, ws[i])
		}
	}
	p, w := chunks(ep, ew)
	return intern(&Term{op: OUF, name: kind, ws: w, args: append([]*Term(nil), p...), lo: big0, hi: two256m1})
}

// chunks canonicalises a concatenation without dropping leading zeros.
func chunks(parts []*Term, ws []int) ([]*Term, []int) {
	var ps []*Term
	var pw []int
	for i, p := range parts {
		p = intern(p)
		w := ws[i]
		if n := len(ps); n > 0 {
			l := ps[n-1]
			if l.op == OConst && p.op == OConst {
				k := new(big.Int).Lsh(p.k, uint(pw[n-1]))
				ps[n-1] = C(k.Add(k, l.k))
				pw[n-1] += w
				continue
			}
			if p.op != OConst && l.op != OConst {
				if mg, ok := adjacent(l, pw[n-1], p, w); ok {
					ps[n-1] = mg
					pw[n-1] += w
					continue
				}
			}
		}
		ps = append(ps, p)
		pw = append(pw, w)
	}
	return ps, pw
}

func digestBytes(h *Term) Array { return Array(bytesBE(h, 32)) }

func initText() {
	nop := func(m *Machine, fn *ssa.Function, a []Value) Value { return m.zeroResults(fn.Signature) }
	for _, n := range []string{"log.Println", "log.Printf", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print"} {
		model(n, nop)
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "os.Exit"} {
		model(n, func(m *Machine, fn *ssa.Function, a []Value) Value { m.goPanic(fn.Name()); return nil })
	}
	model("errors.New", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(string)
		return m.mkErr(s)
	})
	model("fmt.Errorf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s, _ := a[0].(string)
		return m.mkErr(s)
	})
	model("errors.Is", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.equal(a[0], a[1]) })
	model("errors.Join", func(m *Machine, fn *ssa.Function, a []Value) Value {
		for _, e := range a[0].([]Value) {
			if e.(Iface).t != nil {
				return m.mkErr("joined")
			}
		}
		return Iface{}
	})
	model("fmt.Sprintf", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.sprintf(a[0], a[1].([]Value)) })
	model("fmt.Sprint", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if s := a[0].([]Value); len(s) == 1 {
			return m.sprintf("%v", s)
		}
		return "<text>"
	})
	model("fmt.Sprintln", func(m *Machine, fn *ssa.Function, a []Value) Value { return "<text>" })
	model("crypto/sha256.Sum256", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return digestBytes(hashUF("sha256", a[0].([]Value)))
	})
	model("crypto/sha256.New", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Iface{t: m.prog.modelT, v: &HostHash{kind: "sha256"}}
	})
	catArgs := func(v Value) []Value {
		var in []Value
		for _, s := range v.([]Value) {
			in = append(in, s.([]Value)...)
		}
		return in
	}
	model(pEth+"crypto.Keccak256Hash", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return digestBytes(hashUF("keccak256", catArgs(a[0])))
	})
	model(pEth+"crypto.Keccak256", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return []Value(digestBytes(hashUF("keccak256", catArgs(a[0]))))
	})
	model("golang.org/x/crypto/sha3.NewLegacyKeccak256", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Iface{t: m.prog.modelT, v: &HostHash{kind: "keccak256"}}
	})
	model("("+pEth+"common.Hash).Bytes", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return []Value(copyVal(a[0]).(Array))
	})
	model("("+pEth+"common.Hash).Big", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return newBig(fromBytesBE([]Value(a[0].(Array))))
	})

	// bytes.Buffer / strings.Builder
	buf := func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.deref(a[0])
		b, ok := (*p).(BufV)
		if !ok {
			return unsup("buffer %T", *p)
		}
		switch fn.Name() {
		case "Write":
			in := a[1].([]Value)
			*p = BufV{append(append([]Value(nil), b.b...), in...)}
			return Tuple{uint64(len(in)), Iface{}}
		case "WriteString":
			in := strChars(a[1])
			*p = BufV{append(append([]Value(nil), b.b...), in...)}
			return Tuple{uint64(len(in)), Iface{}}
		case "WriteByte":
			*p = BufV{append(append([]Value(nil), b.b...), a[1])}
			return Iface{}
		case "Bytes":
			return append([]Value(nil), b.b...)
		case "String":
			return mkStr(append([]Value(nil), b.b...))
		case "Len":
			return uint64(len(b.b))
		case "Reset":
			*p = BufV{}
			return nil
		case "Grow":
			return nil
		}
		return unsup("buffer method %s", fn.Name())
	}
	modelPrefix("(*bytes.Buffer).", buf)
	modelPrefix("(*strings.Builder).", buf)
	model("bytes.NewBuffer", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = BufV{append([]Value(nil), a[0].([]Value)...)}
		return p
	})

	// regexp
	mustRe := func(m *Machine, v Value) *regexp.Regexp {
		r, ok := (*m.deref(v)).(*regexp.Regexp)
		if !ok || r == nil {
			unsup("regexp value")
		}
		return r
	}
	model("regexp.MustCompile", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			return unsup("symbolic pattern")
		}
		r, err := regexp.Compile(s)
		if err != nil {
			m.goPanic("regexp: " + err.Error())
		}
		p := new(Value)
		*p = r
		return p
	})
	model("regexp.Compile", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			return unsup("symbolic pattern")
		}
		r, err := regexp.Compile(s)
		if err != nil {
			return Tuple{Ptr(nil), m.mkErr(err.Error())}
		}
		p := new(Value)
		*p = r
		return Tuple{p, Iface{}}
	})
	model("(*regexp.Regexp).FindStringSubmatch", func(m *Machine, fn *ssa.Function, a []Value) Value {
		ix := regexIndex(m, mustRe(m, a[0]), a[1])
		if ix == nil {
			return []Value(nil)
		}
		var out []Value
		for i := 0; i+1 < len(ix); i += 2 {
			if ix[i] < 0 {
				out = append(out, "")
				continue
			}
			out = append(out, strSlice(a[1], ix[i], ix[i+1]))
		}
		return out
	})
	model("(*regexp.Regexp).MatchString", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return regexIndex(m, mustRe(m, a[0]), a[1]) != nil
	})
	model("(*regexp.Regexp).FindString", func(m *Machine, fn *ssa.Function, a []Value) Value {
		ix := regexIndex(m, mustRe(m, a[0]), a[1])
		if ix == nil {
			return ""
		}
		return strSlice(a[1], ix[0], ix[1])
	})
	model("(*regexp.Regexp).FindAllString", func(m *Machine, fn *ssa.Function, a []Value) Value {
		re := mustRe(m, a[0])
		n := int(m.concInt(a[2]))
		ref := textCase(m, a[1], func(s string) [][]int { return re.FindAllStringIndex(s, n) })
		var out []Value
		for _, x := range ref {
			out = append(out, strSlice(a[1], x[0], x[1]))
		}
		return out
	})

	// strings
	// arg1 wraps a handler whose second argument is constant text.
	arg1 := func(conc func(s, x string) Value, sym func(m *Machine, s Value, ch []Value, x string) Value) Handler {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			x := ""
			switch b := a[1].(type) {
			case string:
				x = b
			case uint64:
				x = string(rune(b))
			default:
				return unsup("%s with symbolic argument", fn)
			}
			if s, ok := a[0].(string); ok {
				return conc(s, x)
			}
			return sym(m, a[0], strChars(a[0]), x)
		}
	}
	model("strings.HasPrefix", arg1(func(s, x string) Value { return strings.HasPrefix(s, x) }, func(m *Machine, s Value, ch []Value, x string) Value { return m.textAt(ch, 0, x) }))
	model("strings.HasSuffix", arg1(func(s, x string) Value { return strings.HasSuffix(s, x) }, func(m *Machine, s Value, ch []Value, x string) Value { return m.textAt(ch, len(ch)-len(x), x) }))
	model("strings.Contains", arg1(func(s, x string) Value { return strings.Contains(s, x) }, func(m *Machine, s Value, ch []Value, x string) Value { return m.textIndex(s, x, 0) >= 0 }))
	index := arg1(func(s, x string) Value { return uint64(int64(strings.Index(s, x))) }, func(m *Machine, s Value, ch []Value, x string) Value {
		return uint64(int64(m.textIndex(s, x, 0)))
	})
	model("strings.Index", index)
	model("strings.IndexByte", index)
	model("strings.LastIndex", arg1(func(s, x string) Value { return uint64(int64(strings.LastIndex(s, x))) }, func(m *Machine, s Value, ch []Value, x string) Value {
		for i := len(ch) - len(x); i >= 0; i-- {
			if m.textAt(ch, i, x) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}))
	model("strings.Count", arg1(func(s, x string) Value { return uint64(strings.Count(s, x)) }, func(m *Machine, s Value, ch []Value, x string) Value {
		return uint64(textCase(m, s, func(t string) int { return strings.Count(t, x) }))
	}))
	model("strings.TrimPrefix", arg1(func(s, x string) Value { return strings.TrimPrefix(s, x) }, func(m *Machine, s Value, ch []Value, x string) Value {
		if m.textAt(ch, 0, x) {
			return mkStr(ch[len(x):])
		}
		return s
	}))
	model("strings.TrimSuffix", arg1(func(s, x string) Value { return strings.TrimSuffix(s, x) }, func(m *Machine, s Value, ch []Value, x string) Value {
		if m.textAt(ch, len(ch)-len(x), x) {
			return mkStr(ch[:len(ch)-len(x)])
		}
		return s
	}))
	trim := func(m *Machine, ch []Value, x string, left, right bool) Value {
		for left && len(ch) > 0 && m.charIn(ch[0], x) {
			ch = ch[1:]
		}
		for right && len(ch) > 0 && m.charIn(ch[len(ch)-1], x) {
			ch = ch[:len(ch)-1]
		}
		return mkStr(ch)
	}
	model("strings.TrimLeft", arg1(func(s, x string) Value { return strings.TrimLeft(s, x) }, func(m *Machine, s Value, ch []Value, x string) Value { return trim(m, ch, x, true, false) }))
	model("strings.TrimRight", arg1(func(s, x string) Value { return strings.TrimRight(s, x) }, func(m *Machine, s Value, ch []Value, x string) Value { return trim(m, ch, x, false, true) }))
	model("strings.Trim", arg1(func(s, x string) Value { return strings.Trim(s, x) }, func(m *Machine, s Value, ch []Value, x string) Value { return trim(m, ch, x, true, true) }))
	model("strings.TrimSpace", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return strings.TrimSpace(s)
		}
		return trim(m, strChars(a[0]), " \t\n\v\f\r", true, true)
	})
	letters := func(lo, hi byte, d int64, up bool, f func(string) string) Handler {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			if s, ok := a[0].(string); ok {
				return f(s)
			}
			var out []Value
			for _, c := range strChars(a[0]) {
				switch t := c.(type) {
				case uint64:
					out = append(out, uint64(f(string(rune(t)))[0]))
				case *Term:
					if n, ok := hexchOf[t]; ok && up {
						out = append(out, hexCharUpper(n))
					} else if ok {
						out = append(out, hexChar(n))
					} else {
						out = append(out, Ite(And(Le(CI(int64(lo)), t), Le(t, CI(int64(hi)))), Add(t, CI(d)), t))
					}
				}
			}
			return mkStr(out)
		}
	}
	model("strings.ToLower", letters('A', 'Z', 32, false, strings.ToLower))
	model("strings.ToUpper", letters('a', 'z', -32, true, strings.ToUpper))
	model("strings.Split", arg1(func(s, x string) Value {
		var out []Value
		for _, p := range strings.Split(s, x) {
			out = append(out, p)
		}
		return out
	}, func(m *Machine, s Value, ch []Value, x string) Value {
		if x == "" {
			return unsup("Split into characters")
		}
		var out []Value
		at := 0
		for {
			i := m.textIndex(s, x, at)
			if i < 0 {
				return append(out, strSlice(s, at, len(ch)))
			}
			out = append(out, strSlice(s, at, i))
			at = i + len(x)
		}
	}))
	model("strings.Cut", arg1(func(s, x string) Value {
		b, c, ok := strings.Cut(s, x)
		return Tuple{b, c, ok}
	}, func(m *Machine, s Value, ch []Value, x string) Value {
		i := m.textIndex(s, x, 0)
		if i < 0 {
			return Tuple{s, "", false}
		}
		return Tuple{strSlice(s, 0, i), strSlice(s, i+len(x), len(ch)), true}
	}))
	model("strings.Join", func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := Value("")
		for i, s := range a[0].([]Value) {
			if i > 0 {
				r = strCat(r, a[1])
			}
			r = strCat(r, s)
		}
		return r
	})
	model("strings.Fields", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			return unsup("Fields on symbolic text")
		}
		var out []Value
		for _, x := range strings.Fields(s) {
			out = append(out, x)
		}
		return out
	})
	model("strings.ReplaceAll", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s, ok1 := a[0].(string)
		o, ok2 := a[1].(string)
		n, ok3 := a[2].(string)
		if ok1 && ok2 && ok3 {
			return strings.ReplaceAll(s, o, n)
		}
		if !ok2 || !ok3 || o == "" {
			return unsup("ReplaceAll with symbolic argument")
		}
		ch := strChars(a[0])
		var out []Value
		for i := 0; i < len(ch); {
			if m.textAt(ch, i, o) {
				out = append(out, strChars(n)...)
				i += len(o)
			} else {
				out = append(out, ch[i])
				i++
			}
		}
		return mkStr(out)
	})

	// encoding/hex
	model("encoding/hex.DecodeString", func(m *Machine, fn *ssa.Function, a []Value) Value {
		ch := strChars(a[0])
		var out []Value
		for i := 0; i+1 < len(ch); i += 2 {
			h, l := m.nibble(ch[i]), m.nibble(ch[i+1])
			if h == nil || l == nil {
				return Tuple{out, m.mkErr("encoding/hex: invalid byte")}
			}
			out = append(out, byteVal(Cat([]*Term{l, h}, []int{4, 4})))
		}
		if len(ch)%2 == 1 {
			return Tuple{out, m.mkErr("encoding/hex: odd length hex string")}
		}
		if out == nil {
			out = []Value{}
		}
		return Tuple{out, Iface{}}
	})
	model("encoding/hex.EncodeToString", func(m *Machine, fn *ssa.Function, a []Value) Value {
		var out []Value
		for _, b := range a[0].([]Value) {
			t := byteTerm(b)
			out = append(out, hexChar(Ext(t, 4, 4)), hexChar(Ext(t, 0, 4)))
		}
		return mkStr(out)
	})
	model("(*sync.Mutex).Lock", nop)
	model("(*sync.Mutex).Unlock", nop)
	model("(*sync.RWMutex).Lock", nop)
	model("(*sync.RWMutex).Unlock", nop)
	model("(*sync.RWMutex).RLock", nop)
	model("(*sync.RWMutex).RUnlock", nop)
	model("time.Now", nop)
	model("time.Since", nop)
}

// sprintf formats; symbolic integers keep their meaning under simple verbs.
func (m *Machine) sprintf(f Value, args []Value) Value {
	fs, ok := f.(string)
	if !ok {
		return "<text>"
	}
	var out Value = ""
	ai := 0
	i := 0
	sym := func(v Iface) *Term {
		t, ok := m.varTerm(v)
		if ok && t.op != OConst {
			if _, isS := v.v.(*SymStr); isS {
				return nil
			}
			return t
		}
		return nil
	}
	for i < len(fs) {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			return strCat(out, fs[i:])
		}
		out = safeCat(out, fs[i:i+j])
		i += j
		k := i + 1
		for k < len(fs) && strings.IndexByte("+-# 0123456789.", fs[k]) >= 0 {
			k++
		}
		if k >= len(fs) {
			return "<text>"
		}
		spec, verb := fs[i:k+1], fs[k]
		i = k + 1
		if verb == '%' {
			out = safeCat(out, "%")
			continue
		}
		if ai >= len(args) {
			return "<text>"
		}
		v, _ := args[ai].(Iface)
		ai++
		var piece Value
		if t := sym(v); t != nil {
			width := spec[1 : len(spec)-1]
			switch {
			case verb == 'x' && width == "":
				piece = &FmtStr{t, 16}
			case verb == 'x' && strings.HasPrefix(width, "0"):
				n := 0
				fmt.Sscanf(width[1:], "%d", &n)
				if nonNeg(t) && t.hi != nil && t.hi.BitLen() <= 4*n {
					piece = mkStr(hexDigits(t, n))
				} else {
					return "<text>"
				}
			case (verb == 'd' || verb == 's' || verb == 'v') && width == "":
				piece = &FmtStr{t, 10}
			default:
				return "<text>"
			}
		} else {
			switch x := v.v.(type) {
			case string:
				piece = fmt.Sprintf(spec, x)
			case *SymStr, *FmtStr:
				if spec == "%s" || spec == "%v" {
					piece = x
				} else {
					return "<text>"
				}
			case uint64:
				_, sg := intSize(v.t)
				if sg {
					piece = fmt.Sprintf(spec, int64(x))
				} else {
					piece = fmt.Sprintf(spec, x)
				}
			case bool:
				piece = fmt.Sprintf(spec, x)
			default:
				if t, ok := m.varTerm(v); ok && t.op == OConst {
					piece = fmt.Sprintf(spec, t.k)
				} else {
					piece = "<value>"
				}
			}
		}
		out = safeCat(out, piece)
		if out == nil {
			return "<text>"
		}
	}
	return out
}

func safeCat(a, b Value) Value {
	if _, ok := a.(*FmtStr); ok {
		if s, ok := b.(string); ok && s == "" {
			return a
		}
		return "<text>"
	}
	if _, ok := b.(*FmtStr); ok {
		if s, ok := a.(string); ok && s == "" {
			return b
		}
		return "<text>"
	}
	return strCat(a, b)
}

// HostHash is a host-side incremental hash (hash.Hash).
type HostHash struct {
	kind string
	in   []Value
}

func (h *HostHash) Invoke(m *Machine, method string, a []Value) Value {
	switch method {
	case "Write":
		h.in = append(append([]Value(nil), h.in...), a[0].([]Value)...)
		return Tuple{uint64(len(a[0].([]Value))), Iface{}}
	case "Sum":
		var pre []Value
		if s, ok := a[0].([]Value); ok {
			pre = append(pre, s...)
		}
		return append(pre, []Value(digestBytes(hashUF(h.kind, h.in)))...)
	case "Reset":
		h.in = nil
		return nil
	case "Size":
		return uint64(32)
	}
	return unsup("hash method %s", method)
}
