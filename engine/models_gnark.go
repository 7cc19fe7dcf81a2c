package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// OpaqueVar is a circuit variable whose value does not exist while the circuit
// is being defined (what a compiler frontend hands out).
type OpaqueVar struct{ n int }

// APIModel implements frontend.API / frontend.Compiler: values are integers
// modulo r, constraints become path facts.
type APIModel struct{}

func (m *Machine) apiVal() Iface { return Iface{t: m.prog.modelT, v: &APIModel{}} }

func (m *Machine) newOpaque() Iface {
	m.run.fresh++
	return Iface{t: m.prog.opaqueT, v: &OpaqueVar{m.run.fresh}}
}

func isOpaque(v Value) bool {
	switch v := v.(type) {
	case Iface:
		_, ok := v.v.(*OpaqueVar)
		return ok
	case []Value:
		for _, x := range v {
			if isOpaque(x) {
				return true
			}
		}
	}
	return false
}

func anyOpaque(args []Value) bool {
	for _, a := range args {
		if isOpaque(a) {
			return true
		}
	}
	return false
}

// fvar reads a circuit variable as an integer.
func (m *Machine) fvar(v Value) *Term {
	i, ok := v.(Iface)
	if !ok {
		unsup("variable %T", v)
	}
	t, ok := m.varTerm(i)
	if !ok {
		m.goPanic("value to *big.Int not supported")
	}
	return t
}

// fcan is the canonical residue of a variable.
func (m *Machine) fcan(v Value) *Term { return intern(Mod(m.fvar(v), rMod)) }

func (m *Machine) reqBool(t *Term, d string) {
	if t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && t.hi.Cmp(big1) <= 0 {
		return
	}
	m.require(Or(Eq(t, CI(0)), Eq(t, CI(1))), d)
}

func bit01(t *Term) *Term {
	if t.op == OConst && t.k.Sign() == 0 {
		return falseT
	}
	return Eq(t, CI(1))
}

func ifBool(c *Term) *Term { return Ite(c, CI(1), CI(0)) }

func (m *Machine) where(caller string) string { return caller }

func (a *APIModel) Invoke(m *Machine, method string, args []Value) Value {
	ret := func(t *Term) Value { return m.bigVar(intern(t)) }
	if m.run.opaqueVars && anyOpaque(args) {
		switch method {
		case "AssertIsEqual", "AssertIsDifferent", "AssertIsBoolean", "AssertIsCrumb", "AssertIsLessOrEqual", "Println", "MarkBoolean":
			return nil
		case "ToBinary":
			n := rMod.BitLen()
			if o, ok := args[1].([]Value); ok && len(o) == 1 {
				n = int(m.concInt(o[0]))
			}
			var out []Value
			for i := 0; i < n; i++ {
				out = append(out, m.newOpaque())
			}
			return out
		case "ConstantValue":
			return Tuple{Ptr(nil), false}
		case "IsBoolean", "IsConstant":
			return false
		case "NewHint":
		default:
			return m.newOpaque()
		}
	}
	fv := func(i int) *Term { return m.fvar(args[i]) }
	switch method {
	case "Add", "Sub", "Mul":
		t := fv(0)
		xs := append([]Value{args[1]}, args[2].([]Value)...)
		for _, x := range xs {
			y := m.fvar(x)
			switch method {
			case "Add":
				t = FAdd(t, y)
			case "Sub":
				t = FSub(t, y)
			case "Mul":
				t = FMul(t, y)
			}
		}
		return ret(Mod(t, rMod))
	case "MulAcc":
		return ret(FAdd(fv(0), FMul(fv(1), fv(2))))
	case "Neg":
		return ret(Mod(Neg(fv(0)), rMod))
	case "Div", "DivUnchecked", "Inverse":
		var x, y *Term
		if method == "Inverse" {
			x, y = CI(1), fv(0)
		} else {
			x, y = fv(0), fv(1)
		}
		z := Eq(Mod(y, rMod), CI(0))
		if method == "DivUnchecked" {
			// 0/0 is accepted with result 0 (test engine) or an arbitrary value
			if m.decide(normBool(z), nil, nil) {
				m.require(Eq(Mod(x, rMod), CI(0)), "DivUnchecked by zero")
				if m.run.mode == Adversarial {
					return ret(m.run.freshVar("divz", big0, rMinus1))
				}
				return ret(CI(0))
			}
		} else {
			m.require(Not(z), method+" by zero")
		}
		return ret(FMul(x, Inv(y, rMod)))
	case "BatchInvert":
		var out []Value
		for _, v := range args[0].([]Value) {
			out = append(out, ret(Inv(m.fvar(v), rMod)))
		}
		return out
	case "ToBinary":
		n := rMod.BitLen()
		if o, ok := args[1].([]Value); ok && len(o) == 1 {
			n = int(m.concInt(o[0]))
		}
		if n < 0 {
			m.goPanic("invalid n")
		}
		t := m.fcan(args[0])
		m.require(Lt(t, C(pow2(n))), fmt.Sprintf("ToBinary %d", n))
		t = m.below(t, n)
		var out []Value
		for i := 0; i < n; i++ {
			out = append(out, ret(Ext(t, i, 1)))
		}
		return out
	case "FromBinary":
		bits := args[0].([]Value)
		ts := make([]*Term, len(bits))
		ws := make([]int, len(bits))
		exact := true
		for i, b := range bits {
			ts[i] = m.fvar(b)
			ws[i] = 1
			m.reqBool(ts[i], "FromBinary bit")
			if ts[i].hi == nil || ts[i].hi.Cmp(big1) > 0 || ts[i].lo == nil || ts[i].lo.Sign() < 0 {
				exact = false
			}
		}
		if len(bits) == 0 {
			return ret(CI(0))
		}
		if exact {
			return ret(Mod(Cat(ts, ws), rMod))
		}
		var sum []*Term
		for i := range ts {
			sum = append(sum, Mul(ts[i], C(pow2(i))))
		}
		return ret(Mod(Add(sum...), rMod))
	case "Xor", "Or", "And":
		x, y := fv(0), fv(1)
		m.reqBool(x, method)
		m.reqBool(y, method)
		bx, by := bit01(x), bit01(y)
		switch method {
		case "Xor":
			return ret(ifBool(Not(Eq(bx, by))))
		case "Or":
			return ret(ifBool(Or(bx, by)))
		}
		return ret(ifBool(And(bx, by)))
	case "Select":
		b := fv(0)
		m.reqBool(b, "Select")
		return ret(Ite(bit01(b), m.fcan(args[1]), m.fcan(args[2])))
	case "Lookup2":
		b0, b1 := fv(0), fv(1)
		m.reqBool(b0, "Lookup2")
		m.reqBool(b1, "Lookup2")
		lo := Ite(bit01(b0), m.fcan(args[3]), m.fcan(args[2]))
		hi := Ite(bit01(b0), m.fcan(args[5]), m.fcan(args[4]))
		return ret(Ite(bit01(b1), hi, lo))
	case "IsZero":
		return ret(ifBool(Eq(m.fcan(args[0]), CI(0))))
	case "Cmp":
		x, y := m.fcan(args[0]), m.fcan(args[1])
		return ret(Ite(Lt(x, y), C(rMinus1), Ite(Eq(x, y), CI(0), CI(1))))
	case "AssertIsEqual":
		m.require(Eq(m.fcan(args[0]), m.fcan(args[1])), "AssertIsEqual")
		return nil
	case "AssertIsDifferent":
		m.require(Not(Eq(m.fcan(args[0]), m.fcan(args[1]))), "AssertIsDifferent")
		return nil
	case "AssertIsBoolean":
		m.reqBool(m.fcan(args[0]), "AssertIsBoolean")
		return nil
	case "AssertIsCrumb":
		t := m.fcan(args[0])
		m.require(Le(t, CI(3)), "AssertIsCrumb")
		return nil
	case "AssertIsLessOrEqual":
		m.require(Le(m.fcan(args[0]), m.fcan(args[1])), "AssertIsLessOrEqual")
		return nil
	case "Println", "MarkBoolean":
		return nil
	case "Compiler":
		return Iface{t: m.prog.modelT, v: a}
	case "Field":
		return newBig(C(rMod))
	case "FieldBitLen":
		return uint64(rMod.BitLen())
	case "IsConstant":
		return false
	case "ConstantValue":
		return Tuple{newBig(fv(0)), false}
	case "IsBoolean":
		t := fv(0)
		return normBool(And(Le(CI(0), t), Le(t, CI(1))))
	case "NewHint":
		return m.newHint(args)
	}
	return unsup("frontend.API.%s", method)
}

// below returns t with the range [0,2^n) visible (the fact is on the path).
func (m *Machine) below(t *Term, n int) *Term {
	if t.op == OConst || (t.hi != nil && t.hi.BitLen() <= n && nonNeg(t)) {
		return t
	}
	v := m.run.freshVar("lo", big0, new(big.Int).Sub(pow2(n), big1))
	m.require(Eq(v, t), "narrow")
	return m.simp(v)
}

func hintName(f Value) string {
	switch f := f.(type) {
	case *ssa.Function:
		return f.Name()
	case *Closure:
		return f.fn.Name()
	}
	return "hint"
}

func (m *Machine) newHint(args []Value) Value {
	n := int(m.concInt(args[1]))
	if n <= 0 {
		return Tuple{[]Value(nil), m.mkErr("hint function must return at least one output")}
	}
	ins := args[2].([]Value)
	hc := HintCall{fn: args[0], name: hintName(args[0])}
	if m.run.opaqueVars {
		m.run.hints = append(m.run.hints, hc)
		var out []Value
		for i := 0; i < n; i++ {
			out = append(out, m.newOpaque())
		}
		return Tuple{out, Iface{}}
	}
	for _, v := range ins {
		hc.inputs = append(hc.inputs, m.fvar(v))
	}
	if m.run.hintFail {
		b := BoolVar(fmt.Sprintf("hintfail!%d", len(m.run.hints)))
		if m.decideSecond(b) {
			m.run.hints = append(m.run.hints, hc)
			m.run.faults = append(m.run.faults, "NewHint "+hc.name)
			return Tuple{[]Value(nil), m.mkErr("injected: hint rejected")}
		}
	}
	var outs []Value
	if m.run.mode == Adversarial {
		for i := 0; i < n; i++ {
			v := m.run.freshVar(fmt.Sprintf("%s.%d", hc.name, i), big0, rMinus1)
			hc.outputs = append(hc.outputs, v)
			outs = append(outs, m.bigVar(v))
		}
	} else {
		var in []Value
		for _, v := range ins {
			if p, ok := v.(Iface).v.(Ptr); ok && p != nil {
				if _, isB := (*p).(BigInt); isB {
					in = append(in, p)
					continue
				}
			}
			t := m.fvar(v)
			in = append(in, newBig(intern(Mod(t, rMod))))
		}
		res := make([]Value, n)
		for i := range res {
			res[i] = newBig(CI(0))
		}
		err := m.call(args[0], []Value{newBig(C(rMod)), in, res}, nil)
		if e, ok := err.(Iface); ok && e.t != nil {
			m.goPanic("NewHint: error")
		}
		for i := range res {
			p := m.deref(res[i])
			t := intern(Mod(m.bigOf(p), rMod))
			*p = BigInt{t}
			hc.outputs = append(hc.outputs, t)
			outs = append(outs, Iface{t: m.prog.bigPtr, v: p})
		}
	}
	m.run.hints = append(m.run.hints, hc)
	return Tuple{outs, Iface{}}
}

// decideSecond forks with the fault side explored as a deviation.
func (m *Machine) decideSecond(b *Term) bool {
	return !m.decide(Not(b), nil, nil)
}

// injectFault lets library constructors fail when the run asks for it.
func (m *Machine) injectFault(what string) bool {
	if !m.run.ctorFail {
		return false
	}
	m.run.ctors++
	b := BoolVar(fmt.Sprintf("ctorfail!%d", m.run.ctors))
	if m.decideSecond(b) {
		m.run.faults = append(m.run.faults, what)
		return true
	}
	return false
}

// ---------------------------------------------------------------- emulated, uints, hashes

type CurveObj struct{ params string }
type CurveParamsV struct{ name string }
type UintsObj struct{}
type FieldObj struct{ mod *big.Int }
type PairingObj struct{}

// GadgetHash is an in-circuit hash.
type GadgetHash struct {
	kind string
	in   []*Term
	opq  bool
}

func (h *GadgetHash) Invoke(m *Machine, method string, a []Value) Value {
	switch method {
	case "Write":
		for _, b := range a[0].([]Value) {
			t, o := m.u8Term(b)
			if o {
				h.opq = true
			}
			h.in = append(h.in, t)
		}
		return nil
	case "Sum":
		if h.opq {
			var out []Value
			for i := 0; i < 32; i++ {
				out = append(out, Struct{m.newOpaque(), true})
			}
			return out
		}
		var b []Value
		for _, t := range h.in {
			b = append(b, byteVal(m.run.sub.shallow(t)))
		}
		d := hashUF(h.kind, b)
		m.run.events = append(m.run.events, Event{kind: "hash:" + h.kind, args: append([]*Term{d}, h.in...)})
		var out []Value
		for _, x := range bytesBE(d, 32) {
			out = append(out, Struct{m.bigVar(byteTerm(x)), true})
		}
		return out
	case "Size":
		return uint64(32)
	case "Reset":
		h.in = nil
		return nil
	}
	return unsup("hash gadget method %s", method)
}

func (m *Machine) u8Term(v Value) (*Term, bool) {
	s, ok := v.(Struct)
	if !ok || len(s) == 0 {
		unsup("U8 value %T", v)
	}
	if isOpaque(s[0]) {
		return CI(0), true
	}
	if i, ok := s[0].(Iface); ok && i.t == nil {
		m.goPanic("nil byte variable")
	}
	return m.fcan(s[0]), false
}

func (m *Machine) emu(v Value) EmuEl {
	switch v := v.(type) {
	case EmuEl:
		return v
	case Ptr:
		e, ok := (*m.deref(v)).(EmuEl)
		if !ok {
			unsup("emulated element %T", *v)
		}
		return e
	}
	unsup("emulated element %T", v)
	return EmuEl{}
}

func (m *Machine) emuT(v Value) *Term {
	e := m.emu(v)
	if e.t == nil {
		if m.run.opaqueVars {
			return CI(0)
		}
		m.goPanic("emulated element not initialised")
	}
	return m.simp(e.t)
}

// affLC reads an in-circuit affine point as a group element.
func (m *Machine) affLC(v Value) *LC {
	p, ok := v.(Ptr)
	var s Struct
	if ok {
		s, ok = (*m.deref(p)).(Struct)
	} else {
		s, ok = v.(Struct)
	}
	if !ok || len(s) != 2 {
		unsup("affine point")
	}
	return pointOf(m.emuT(s[0]), m.emuT(s[1]))
}

func affPtr(l *LC) Value {
	p := new(Value)
	*p = Struct{EmuEl{lcX(l), pMod}, EmuEl{lcY(l), pMod}}
	return p
}

func typeArgMod(fn *ssa.Function, i int) *big.Int {
	ta := fn.TypeArgs()
	if i < len(ta) {
		return modulusByName(namedPath(ta[i]))
	}
	return nil
}

func ptrTo(v Value) Ptr {
	p := new(Value)
	*p = v
	return p
}

func initGnark() {
	model(pGnark+"constraint/solver.RegisterHint", func(m *Machine, fn *ssa.Function, a []Value) Value {
		for _, h := range a[0].([]Value) {
			switch f := h.(type) {
			case *ssa.Function:
				m.run.registered[f] = true
			case *Closure:
				m.run.registered[f.fn] = true
			}
		}
		return nil
	})
	model(pGnark+"constraint/solver.RegisterNamedHint", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if f, ok := a[0].(*ssa.Function); ok {
			m.run.registered[f] = true
		}
		return nil
	})
	for _, n := range []string{"BN254Fp", "BN254Fr", "Secp256k1Fp", "Secp256k1Fr"} {
		md := modulusByName("." + n)
		for _, pre := range []string{pEmu + "/emparams.", pEmu + "."} {
			for _, st := range []string{"", "*"} {
				model("("+st+pre+n+").Modulus", func(m *Machine, fn *ssa.Function, a []Value) Value { return newBig(C(md)) })
				model("("+st+pre+n+").NbLimbs", func(m *Machine, fn *ssa.Function, a []Value) Value { return uint64(4) })
				model("("+st+pre+n+").BitsPerLimb", func(m *Machine, fn *ssa.Function, a []Value) Value { return uint64(64) })
				model("("+st+pre+n+").IsPrime", func(m *Machine, fn *ssa.Function, a []Value) Value { return true })
			}
		}
	}
	idMod := func(scalar bool) Handler {
		return func(m *Machine, fn *ssa.Function, a []Value) Value {
			id, ok := a[0].(uint64)
			if ok && m.prog.eccID("BN254") == int64(id) {
				if scalar {
					return newBig(C(rMod))
				}
				return newBig(C(pMod))
			}
			if ok && m.prog.eccID("SECP256K1") == int64(id) {
				if scalar {
					return newBig(C(secpN))
				}
				return newBig(C(secpP))
			}
			return unsup("ecc id")
		}
	}
	model("("+pCrypto+"ecc.ID).ScalarField", idMod(true))
	model("("+pCrypto+"ecc.ID).BaseField", idMod(false))

	// emulated
	model(pEmu+".ValueOf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		md := typeArgMod(fn, 0)
		if md == nil {
			return unsup("emulated.ValueOf %s", fn)
		}
		v := a[0].(Iface)
		if isOpaque(v) {
			if m.run.onBadAssert != nil {
				m.run.onBadAssert(fn, nil, v)
			}
			m.goPanic("emulated.ValueOf of a circuit variable")
		}
		t, ok := m.varTerm(v)
		if !ok {
			m.goPanic("emulated.ValueOf: unsupported value")
		}
		return EmuEl{intern(Mod(t, md)), md}
	})
	model(pEmu+".NewField", func(m *Machine, fn *ssa.Function, a []Value) Value {
		md := typeArgMod(fn, 0)
		if md == nil {
			return unsup("emulated.NewField %s", fn)
		}
		return Tuple{ptrTo(&FieldObj{md}), Iface{}}
	})
	modelPrefix("(*"+pEmu+".Field).", emuMethod)

	// uints
	model(pUints+".New", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if m.injectFault("uints.New") {
			return Tuple{Ptr(nil), m.mkErr("injected")}
		}
		return Tuple{ptrTo(&UintsObj{}), Iface{}}
	})
	u8c := func(v Value) Value {
		if t, ok := v.(*Term); ok {
			return Struct{Iface{t: types.Typ[types.Uint8], v: t}, true}
		}
		return Struct{Iface{t: types.Typ[types.Uint8], v: v}, true}
	}
	model(pUints+".NewU8", func(m *Machine, fn *ssa.Function, a []Value) Value { return u8c(a[0]) })
	model(pUints+".NewU8Array", func(m *Machine, fn *ssa.Function, a []Value) Value {
		var out []Value
		for _, b := range a[0].([]Value) {
			out = append(out, u8c(b))
		}
		return out
	})
	modelPrefix("(*"+pUints+".BinaryField).", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.deref(a[0])
		switch fn.Name() {
		case "ByteValueOf":
			if isOpaque(a[1]) {
				return Struct{a[1], true}
			}
			t := m.fcan(a[1])
			m.require(Le(t, C(byteHi)), "byte range")
			if t.hi == nil || t.hi.Cmp(byteHi) > 0 {
				b := m.run.freshVar("byte", big0, byteHi)
				m.require(Eq(t, b), "byte view")
				t = m.simp(b)
			}
			return Struct{m.bigVar(t), true}
		case "ByteAssertEq":
			x, o1 := m.u8Term(a[1])
			y, o2 := m.u8Term(a[2])
			if o1 || o2 {
				return nil
			}
			m.require(Eq(x, y), "ByteAssertEq")
			return nil
		case "AssertEq":
			x, y := a[1].(Array), a[2].(Array)
			for i := range x {
				p, _ := m.u8Term(x[i])
				q, _ := m.u8Term(y[i])
				m.require(Eq(p, q), "AssertEq")
			}
			return nil
		case "ValueOf":
			n := fn.Signature.Results().At(0).Type().Underlying().(*types.Array)
			t := m.fcan(a[1])
			m.require(Lt(t, C(pow2(8*int(n.Len())))), "word range")
			t = m.below(t, 8*int(n.Len()))
			out := make(Array, n.Len())
			for i := range out {
				out[i] = Struct{m.bigVar(Ext(t, 8*i, 8)), true}
			}
			return out
		case "ToValue":
			x := a[1].(Array)
			var sum []*Term
			for i := range x {
				p, _ := m.u8Term(x[i])
				sum = append(sum, Mul(p, C(pow2(8*i))))
			}
			return m.bigVar(intern(Mod(Add(sum...), rMod)))
		case "UnpackLSB", "UnpackMSB":
			x := a[1].(Array)
			out := make([]Value, len(x))
			for i := range x {
				if fn.Name() == "UnpackLSB" {
					out[i] = x[i]
				} else {
					out[i] = x[len(x)-1-i]
				}
			}
			return out
		}
		return unsup("uints method %s", fn.Name())
	})

	// hash gadgets
	for n, k := range map[string]string{"sha2.New": "sha256", "sha3.NewLegacyKeccak256": "keccak256", "sha3.New256": "sha3-256"} {
		kind := k
		model(pGnark+"std/hash/"+n, func(m *Machine, fn *ssa.Function, a []Value) Value {
			if m.injectFault("hash " + kind) {
				return Tuple{Iface{}, m.mkErr("injected")}
			}
			return Tuple{Iface{t: m.prog.modelT, v: &GadgetHash{kind: kind}}, Iface{}}
		})
	}

	// curves
	model(pSW+".GetCurveParams", func(m *Machine, fn *ssa.Function, a []Value) Value {
		switch md := typeArgMod(fn, 0); md {
		case pMod:
			return CurveParamsV{"bn254"}
		case secpP:
			return CurveParamsV{"secp256k1"}
		}
		return unsup("curve parameters")
	})
	model(pSW+".GetBN254Params", func(m *Machine, fn *ssa.Function, a []Value) Value { return CurveParamsV{"bn254"} })
	model(pSW+".GetSecp256k1Params", func(m *Machine, fn *ssa.Function, a []Value) Value { return CurveParamsV{"secp256k1"} })
	model(pSW+".New", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if m.injectFault("sw_emulated.New") {
			return Tuple{Ptr(nil), m.mkErr("injected")}
		}
		cp, ok := a[1].(CurveParamsV)
		if !ok || cp.name != "bn254" {
			return unsup("curve")
		}
		if typeArgMod(fn, 0) != pMod || typeArgMod(fn, 1) != rMod {
			return unsup("curve fields")
		}
		return Tuple{ptrTo(&CurveObj{cp.name}), Iface{}}
	})
	modelPrefix("(*"+pSW+".Curve).", curveMethod)

	model(pSWBN+".NewG1Affine", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := a[0].(Struct)
		return Struct{EmuEl{elOf(m, s[0]).t, pMod}, EmuEl{elOf(m, s[1]).t, pMod}}
	})
	model(pSWBN+".NewScalar", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return EmuEl{elOf(m, a[0]).t, rMod}
	})
	g2 := func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := a[0].(Struct)
		x, y := s[0].(Struct), s[1].(Struct)
		return G2Sym{elOf(m, x[0]).t, elOf(m, x[1]).t, elOf(m, y[0]).t, elOf(m, y[1]).t}
	}
	model(pSWBN+".NewG2Affine", g2)
	model(pSWBN+".NewG2AffineFixed", g2)
	model(pSWBN+".NewPairing", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if m.injectFault("sw_bn254.NewPairing") {
			return Tuple{Ptr(nil), m.mkErr("injected")}
		}
		return Tuple{ptrTo(&PairingObj{}), Iface{}}
	})
	pairingMethod := func(m *Machine, fn *ssa.Function, a []Value) Value {
		if fn.Name() != "PairingCheck" {
			return unsup("pairing method %s", fn.Name())
		}
		if _, ok := a[0].(Ptr); ok {
			m.deref(a[0])
		}
		if m.injectFault("PairingCheck") {
			return m.mkErr("injected")
		}
		P, Q := a[1].([]Value), a[2].([]Value)
		if len(P) == 0 || len(P) != len(Q) {
			return m.mkErr("invalid inputs sizes")
		}
		if m.run.opaqueVars {
			return Iface{}
		}
		ev := Event{kind: "pairing"}
		acc := map[G2Sym]*LC{}
		var order []G2Sym
		for i := range P {
			l := m.affLC(P[i])
			q, ok := (*m.deref(Q[i])).(G2Sym)
			if !ok || q.xa == nil {
				unsup("pairing G2 operand")
			}
			ev.lcs = append(ev.lcs, l)
			ev.args = append(ev.args, q.xa, q.xb, q.ya, q.yb)
			cq, neg := q.canon()
			if neg {
				l = lcNeg(l)
			}
			if o, ok := acc[cq]; ok {
				acc[cq] = lcAdd(o, l)
			} else {
				acc[cq] = l
				order = append(order, cq)
			}
		}
		m.run.events = append(m.run.events, ev)
		m.require(pairingPred(acc, order), "PairingCheck")
		return Iface{}
	}
	modelPrefix("(*"+pSWBN+".Pairing).", pairingMethod)
	modelPrefix("("+pSWBN+".Pairing).", pairingMethod)
	model(pGnark+"std/signature/ecdsa.NewX", nil)
	delete(models, pGnark+"std/signature/ecdsa.NewX")
	vf := func(m *Machine, fn *ssa.Function, a []Value) Value {
		var pk Struct
		if p, ok := a[0].(Ptr); ok {
			pk = (*m.deref(p)).(Struct)
		} else {
			pk = a[0].(Struct)
		}
		cp, ok := a[2].(CurveParamsV)
		if !ok {
			return unsup("ecdsa params")
		}
		sig := (*m.deref(a[4])).(Struct)
		if m.run.opaqueVars {
			m.run.events = append(m.run.events, Event{kind: "ecdsa"})
			return nil
		}
		args := []*Term{m.emuT(pk[0]), m.emuT(pk[1]), m.emuT(a[3]), m.emuT(sig[0]), m.emuT(sig[1])}
		m.run.events = append(m.run.events, Event{kind: "ecdsa", args: args})
		m.require(Pred("ecdsa/"+cp.name, args...), "ecdsa signature")
		return nil
	}
	model("("+pGnark+"std/signature/ecdsa.PublicKey).Verify", vf)
	model("(*"+pGnark+"std/signature/ecdsa.PublicKey).Verify", vf)
}

// canon picks one of Q, -Q.
func (q G2Sym) canon() (G2Sym, bool) {
	if q.ya.op != OConst || q.yb.op != OConst {
		return q, false
	}
	na := intern(Mod(Neg(q.ya), pMod))
	nb := intern(Mod(Neg(q.yb), pMod))
	if na.k.Cmp(q.ya.k) < 0 || (na == q.ya && nb.k.Cmp(q.yb.k) < 0) {
		return G2Sym{q.xa, q.xb, na, nb}, true
	}
	return q, false
}

func pairingPred(acc map[G2Sym]*LC, order []G2Sym) *Term {
	// deterministic order of the G2 operands
	for i := range order {
		for j := i + 1; j < len(order); j++ {
			if order[j].xa.k != nil && order[i].xa.k != nil && order[j].xa.k.Cmp(order[i].xa.k) < 0 {
				order[i], order[j] = order[j], order[i]
			}
		}
	}
	var args []*Term
	for _, q := range order {
		l := acc[q]
		if len(l.ents) == 0 {
			continue
		}
		args = append(args, lcX(l), lcY(l), q.xa, q.xb, q.ya, q.yb)
	}
	if len(args) == 0 {
		return trueT
	}
	return Pred("pairing", args...)
}

func emuMethod(m *Machine, fn *ssa.Function, a []Value) Value {
	f, ok := (*m.deref(a[0])).(*FieldObj)
	if !ok {
		return unsup("emulated field")
	}
	ret := func(t *Term) Value { return ptrTo(EmuEl{intern(Mod(t, f.mod)), f.mod}) }
	el := func(i int) *Term { return m.emuT(a[i]) }
	switch fn.Name() {
	case "NewElement":
		v := a[1].(Iface)
		switch p := v.v.(type) {
		case EmuEl:
			return ptrTo(p)
		case Ptr:
			if e, ok := (*m.deref(p)).(EmuEl); ok {
				return ptrTo(e)
			}
		}
		return unsup("NewElement")
	case "Add":
		return ret(Add(el(1), el(2)))
	case "Sub":
		return ret(Sub(el(1), el(2)))
	case "Neg":
		return ret(Neg(el(1)))
	case "Mul", "MulMod":
		return ret(Mul(el(1), el(2)))
	case "Reduce", "ReduceStrict":
		return ret(el(1))
	case "Zero":
		return ret(CI(0))
	case "One":
		return ret(CI(1))
	case "AssertIsEqual":
		m.require(Eq(el(1), el(2)), "emulated AssertIsEqual")
		return nil
	case "IsZero":
		return m.bigVar(ifBool(Eq(el(1), CI(0))))
	}
	return unsup("emulated field method %s", fn.Name())
}

func curveMethod(m *Machine, fn *ssa.Function, a []Value) Value {
	if _, ok := (*m.deref(a[0])).(*CurveObj); !ok {
		return unsup("curve object")
	}
	if m.run.opaqueVars {
		switch fn.Name() {
		case "AssertIsEqual", "AssertIsOnCurve":
			return nil
		case "MultiScalarMul":
			if len(a[1].([]Value)) != len(a[2].([]Value)) {
				return Tuple{Ptr(nil), m.mkErr("mismatching points and scalars slice lengths")}
			}
			return Tuple{affPtr(lcInf), Iface{}}
		}
		return affPtr(lcInf)
	}
	gen := func() *LC { return pointOf(CI(1), CI(2)) }
	switch fn.Name() {
	case "ScalarMul":
		m.run.events = append(m.run.events, Event{kind: "scalarmul", lcs: []*LC{m.affLC(a[1])}, args: []*Term{m.emuT(a[2])}})
		return affPtr(lcScale(m.affLC(a[1]), m.emuT(a[2])))
	case "ScalarMulBase":
		return affPtr(lcScale(gen(), m.emuT(a[1])))
	case "JointScalarMulBase":
		return affPtr(lcAdd(lcScale(gen(), m.emuT(a[3])), lcScale(m.affLC(a[1]), m.emuT(a[2]))))
	case "AddUnified":
		return affPtr(lcAdd(m.affLC(a[1]), m.affLC(a[2])))
	case "Add":
		// the incomplete law: wrong for equal x coordinates and for infinity
		p, q := m.affLC(a[1]), m.affLC(a[2])
		same := And(Eq(lcX(p), lcX(q)))
		if m.decide(normBool(m.simp(same)), fn, nil) {
			if m.run.mode == Honest {
				m.goPanic("no modular inverse")
			}
			m.require(Eq(lcY(p), lcY(q)), "slope of equal points")
			return ptrTo(Struct{EmuEl{m.run.freshVar("addx", big0, pMinus1), pMod}, EmuEl{m.run.freshVar("addy", big0, pMinus1), pMod}})
		}
		inf := func(l *LC) *Term { return And(Eq(lcX(l), CI(0)), Eq(lcY(l), CI(0))) }
		if m.decide(normBool(m.simp(Or(inf(p), inf(q)))), fn, nil) {
			return ptrTo(Struct{EmuEl{m.run.freshVar("addx", big0, pMinus1), pMod}, EmuEl{m.run.freshVar("addy", big0, pMinus1), pMod}})
		}
		return affPtr(lcAdd(p, q))
	case "Double", "double":
		return affPtr(lcScale(m.affLC(a[1]), CI(2)))
	case "Neg":
		return affPtr(lcNeg(m.affLC(a[1])))
	case "Generator":
		return affPtr(gen())
	case "AssertIsEqual":
		x, y := m.affLC(a[1]), m.affLC(a[2])
		m.require(Eq(lcX(x), lcX(y)), "point x")
		m.require(Eq(lcY(x), lcY(y)), "point y")
		return nil
	case "AssertIsOnCurve":
		x := m.affLC(a[1])
		m.require(OnCurve(lcX(x), lcY(x)), "on curve")
		return nil
	case "MultiScalarMul":
		P, S := a[1].([]Value), a[2].([]Value)
		if len(P) == 0 {
			return Tuple{affPtr(lcInf), Iface{}}
		}
		if len(P) != len(S) {
			return Tuple{Ptr(nil), m.mkErr("mismatching points and scalars slice lengths")}
		}
		if m.injectFault("MultiScalarMul") {
			return Tuple{Ptr(nil), m.mkErr("injected")}
		}
		r := lcInf
		for i := range P {
			r = lcAdd(r, lcScale(m.affLC(P[i]), m.emuT(S[i])))
		}
		return Tuple{affPtr(r), Iface{}}
	case "Select":
		b := m.fvar(a[1])
		m.reqBool(b, "Select")
		if m.decide(normBool(bit01(b)), fn, nil) {
			return affPtr(m.affLC(a[2]))
		}
		return affPtr(m.affLC(a[3]))
	}
	return unsup("curve method %s", fn.Name())
}

// ---------------------------------------------------------------- host curve libraries

func g1Of(m *Machine, v Value) (Ptr, *LC, *Term, *Term) {
	p := m.deref(v)
	s, ok := (*p).(Struct)
	if !ok || len(s) != 2 {
		unsup("G1Affine %T", *p)
	}
	x, y := m.simp(elOf(m, s[0]).t), m.simp(elOf(m, s[1]).t)
	return p, nil, x, y
}

func setG1(m *Machine, recv Value, l *LC) Value {
	p := m.deref(recv)
	s, ok := (*p).(Struct)
	if !ok {
		unsup("G1Affine receiver")
	}
	s[0] = FieldEl{lcX(l), pMod}
	s[1] = FieldEl{lcY(l), pMod}
	return p
}

func initCurveModels() {
	g1 := func(m *Machine, fn *ssa.Function, a []Value) Value {
		lc := func(i int) *LC { _, _, x, y := g1Of(m, a[i]); return pointOf(x, y) }
		switch fn.Name() {
		case "IsOnCurve":
			_, _, x, y := g1Of(m, a[0])
			return normBool(OnCurve(x, y))
		case "IsInSubGroup":
			_, _, x, y := g1Of(m, a[0])
			return normBool(OnCurve(x, y))
		case "IsInfinity":
			_, _, x, y := g1Of(m, a[0])
			return normBool(And(Eq(x, CI(0)), Eq(y, CI(0))))
		case "Equal":
			_, _, x, y := g1Of(m, a[0])
			_, _, u, v := g1Of(m, a[1])
			return normBool(And(Eq(x, u), Eq(y, v)))
		case "Set":
			_, _, x, y := g1Of(m, a[1])
			p := m.deref(a[0])
			(*p).(Struct)[0] = FieldEl{x, pMod}
			(*p).(Struct)[1] = FieldEl{y, pMod}
			return p
		case "ScalarMultiplication":
			return setG1(m, a[0], lcScale(lc(1), m.bigOf(a[2])))
		case "ScalarMultiplicationBase":
			return setG1(m, a[0], lcScale(pointOf(CI(1), CI(2)), m.bigOf(a[1])))
		case "Add":
			return setG1(m, a[0], lcAdd(lc(1), lc(2)))
		case "Sub":
			return setG1(m, a[0], lcAdd(lc(1), lcNeg(lc(2))))
		case "Double":
			return setG1(m, a[0], lcScale(lc(1), CI(2)))
		case "Neg":
			return setG1(m, a[0], lcNeg(lc(1)))
		case "String":
			return "<point>"
		}
		return unsup("G1Affine method %s", fn.Name())
	}
	modelPrefix("(*"+pBN254+".G1Affine).", g1)

	// extension field and G2 (concrete values only)
	e2 := func(m *Machine, v Value) (a, b *big.Int) {
		s, ok := derefAny(v).(Struct)
		if !ok {
			unsup("E2")
		}
		x, y := elOf(m, s[0]).t, elOf(m, s[1]).t
		if x.op != OConst || y.op != OConst {
			unsup("symbolic G2 point")
		}
		return x.k, y.k
	}
	tower := pBN254 + "/internal/fptower.E2"
	modelPrefix("(*"+tower+").", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.deref(a[0])
		s, ok := (*p).(Struct)
		if !ok {
			return unsup("E2")
		}
		set := func(x, y *big.Int) Value {
			s[0] = FieldEl{C(new(big.Int).Mod(x, pMod)), pMod}
			s[1] = FieldEl{C(new(big.Int).Mod(y, pMod)), pMod}
			return p
		}
		switch fn.Name() {
		case "SetString":
			x, ok1 := m.parseInt(a[1], 0)
			y, ok2 := m.parseInt(a[2], 0)
			if !ok1 || !ok2 {
				m.goPanic("fp.Element.SetString failed")
			}
			if x.op != OConst || y.op != OConst {
				return unsup("symbolic E2")
			}
			return set(x.k, y.k)
		case "SetOne":
			return set(big1, big0)
		case "SetZero":
			return set(big0, big0)
		case "Set":
			x, y := e2(m, a[1])
			return set(x, y)
		case "Neg":
			x, y := e2(m, a[1])
			return set(new(big.Int).Neg(x), new(big.Int).Neg(y))
		case "Equal":
			x, y := e2(m, a[0])
			u, v := e2(m, a[1])
			return x.Cmp(u) == 0 && y.Cmp(v) == 0
		case "IsZero":
			x, y := e2(m, a[0])
			return x.Sign() == 0 && y.Sign() == 0
		case "String":
			return "<e2>"
		}
		return unsup("E2 method %s", fn.Name())
	})
	f2of := func(m *Machine, v Value) f2 { a, b := e2(m, v); return f2{a, b} }
	modelPrefix("(*"+pBN254+".G2Jac).", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.deref(a[0])
		s := (*p).(Struct)
		put := func(d *Value, v f2) { *d = Struct{FieldEl{C(v.a), pMod}, FieldEl{C(v.b), pMod}} }
		switch fn.Name() {
		case "IsOnCurve":
			x, y, z := f2of(m, s[0]), f2of(m, s[1]), f2of(m, s[2])
			if z.zero() {
				// (x,y,0): Y^2 = X^3
				return y.mul(y).eq(x.mul(x).mul(x))
			}
			zi := z.inv()
			z2 := zi.mul(zi)
			return g2OnCurve(x.mul(z2), y.mul(z2).mul(zi))
		case "FromAffine":
			q := (*m.deref(a[1])).(Struct)
			put(&s[0], f2of(m, q[0]))
			put(&s[1], f2of(m, q[1]))
			put(&s[2], f2{big.NewInt(1), big.NewInt(0)})
			return p
		case "Set":
			q := (*m.deref(a[1])).(Struct)
			for i := range s {
				s[i] = copyVal(q[i])
			}
			return p
		case "Neg":
			q := (*m.deref(a[1])).(Struct)
			x, y, z := f2of(m, q[0]), f2of(m, q[1]), f2of(m, q[2])
			put(&s[0], x)
			put(&s[1], y.neg())
			put(&s[2], z)
			return p
		}
		return unsup("G2Jac method %s", fn.Name())
	})
	modelPrefix("(*"+pBN254+".G2Affine).", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.deref(a[0])
		s, ok := (*p).(Struct)
		if !ok {
			return unsup("G2Affine")
		}
		put := func(d *Value, v f2) { *d = Struct{FieldEl{C(v.a), pMod}, FieldEl{C(v.b), pMod}} }
		switch fn.Name() {
		case "FromJacobian":
			q := (*m.deref(a[1])).(Struct)
			x, y, z := f2of(m, q[0]), f2of(m, q[1]), f2of(m, q[2])
			if z.zero() {
				put(&s[0], f2{big.NewInt(0), big.NewInt(0)})
				put(&s[1], f2{big.NewInt(0), big.NewInt(0)})
				return p
			}
			zi := z.inv()
			z2 := zi.mul(zi)
			put(&s[0], x.mul(z2))
			put(&s[1], y.mul(z2).mul(zi))
			return p
		case "IsOnCurve":
			x, y := f2of(m, s[0]), f2of(m, s[1])
			return (x.zero() && y.zero()) || g2OnCurve(x, y)
		case "Neg":
			q := (*m.deref(a[1])).(Struct)
			x, y := f2of(m, q[0]), f2of(m, q[1])
			put(&s[0], x)
			put(&s[1], y.neg())
			return p
		case "Set":
			q := (*m.deref(a[1])).(Struct)
			for i := range s {
				s[i] = copyVal(q[i])
			}
			return p
		case "IsInfinity":
			x, y := f2of(m, s[0]), f2of(m, s[1])
			return x.zero() && y.zero()
		case "Equal":
			q := (*m.deref(a[1])).(Struct)
			return f2of(m, s[0]).eq(f2of(m, q[0])) && f2of(m, s[1]).eq(f2of(m, q[1]))
		case "String":
			return "<g2>"
		}
		return unsup("G2Affine method %s", fn.Name())
	})

	// go-ethereum bn256
	for _, impl := range []string{"cloudflare", "google", "gnark"} {
		modelPrefix("(*"+pEth+"crypto/bn256/"+impl+".G1).", bnG1)
	}
}

func bnG1(m *Machine, fn *ssa.Function, a []Value) Value {
	p := m.deref(a[0])
	lc := func(i int) *LC {
		g, ok := (*m.deref(a[i])).(G1Host)
		if !ok {
			unsup("bn256.G1")
		}
		if !g.set {
			m.goPanic("nil bn256 point")
		}
		return m.run.sub.applyLC(g.lc)
	}
	set := func(l *LC) Value { *p = G1Host{l, true}; return p }
	switch fn.Name() {
	case "Unmarshal":
		b := a[1].([]Value)
		if len(b) < 64 {
			return Tuple{[]Value(nil), m.mkErr("bn256: not enough data")}
		}
		x, y := m.simp(fromBytesBE(b[:32])), m.simp(fromBytesBE(b[32:64]))
		if !m.decide(normBool(And(Lt(x, C(pMod)), Lt(y, C(pMod)))), nil, nil) {
			return Tuple{[]Value(nil), m.mkErr("bn256: coordinate exceeds modulus")}
		}
		if m.decide(normBool(And(Eq(x, CI(0)), Eq(y, CI(0)))), nil, nil) {
			set(lcInf)
			return Tuple{b[64:], Iface{}}
		}
		if !m.decide(normBool(OnCurve(x, y)), nil, nil) {
			return Tuple{[]Value(nil), m.mkErr("bn256: malformed point")}
		}
		set(pointOf(x, y))
		return Tuple{b[64:], Iface{}}
	case "ScalarMult":
		k := m.bigOf(a[2])
		return set(lcScale(lc(1), k))
	case "ScalarBaseMult":
		return set(lcScale(pointOf(CI(1), CI(2)), m.bigOf(a[1])))
	case "Add":
		return set(lcAdd(lc(1), lc(2)))
	case "Neg":
		return set(lcNeg(lc(1)))
	case "Set":
		return set(lc(1))
	case "String":
		x, y := m.finiteXY(lc(0))
		r := strCat("bn256.G1(", mkStr(hexDigits(x, 64)))
		r = strCat(r, ", ")
		r = strCat(r, mkStr(hexDigits(y, 64)))
		return strCat(r, ")")
	case "Marshal":
		l := lc(0)
		if len(l.ents) == 0 {
			out := make([]Value, 64)
			for i := range out {
				out[i] = uint64(0)
			}
			return out
		}
		return append(bytesBE(lcX(l), 32), bytesBE(lcY(l), 32)...)
	}
	return unsup("bn256.G1 method %s", fn.Name())
}

// finiteXY gives printed affine coordinates; go-ethereum prints infinity as (0,1).
func (m *Machine) finiteXY(l *LC) (*Term, *Term) {
	if len(l.ents) == 0 {
		return CI(0), CI(1)
	}
	return lcX(l), lcY(l)
}

// ---- concrete F_p^2

type f2 struct{ a, b *big.Int }

func (x f2) zero() bool       { return x.a.Sign() == 0 && x.b.Sign() == 0 }
func (x f2) eq(y f2) bool     { return x.a.Cmp(y.a) == 0 && x.b.Cmp(y.b) == 0 }
func fpm(x *big.Int) *big.Int { return x.Mod(x, pMod) }
func (x f2) mul(y f2) f2 {
	ac := new(big.Int).Mul(x.a, y.a)
	bd := new(big.Int).Mul(x.b, y.b)
	ad := new(big.Int).Mul(x.a, y.b)
	bc := new(big.Int).Mul(x.b, y.a)
	return f2{fpm(ac.Sub(ac, bd)), fpm(ad.Add(ad, bc))}
}
func (x f2) add(y f2) f2 {
	return f2{fpm(new(big.Int).Add(x.a, y.a)), fpm(new(big.Int).Add(x.b, y.b))}
}
func (x f2) neg() f2 { return f2{fpm(new(big.Int).Neg(x.a)), fpm(new(big.Int).Neg(x.b))} }
func (x f2) inv() f2 {
	n := new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b))
	n.ModInverse(fpm(n), pMod)
	return f2{fpm(new(big.Int).Mul(x.a, n)), fpm(new(big.Int).Mul(new(big.Int).Neg(x.b), n))}
}

// g2OnCurve: y^2 = x^3 + 3/(9+u)
func g2OnCurve(x, y f2) bool {
	b := f2{big.NewInt(9), big.NewInt(1)}.inv().mul(f2{big.NewInt(3), big.NewInt(0)})
	return y.mul(y).eq(x.mul(x).mul(x).add(b))
}

func (p *Program) eccID(name string) int64 {
	for _, q := range p.ssa.AllPackages() {
		if q.Pkg.Path() == pCrypto+"ecc" {
			if c, ok := q.Members[name].(*ssa.NamedConst); ok {
				return c.Value.Int64()
			}
		}
	}
	return -1
}

var _ = strings.HasPrefix
