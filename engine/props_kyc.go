package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
)

// ---- range and non-zero checks (C24)

func boundVals(r *rand.Rand, ins []In) []*big.Int {
	v := make([]*big.Int, len(ins))
	for i := range v {
		switch r.Intn(4) {
		case 0:
			v[i] = edgeFr[r.Intn(len(edgeFr))]
		case 1:
			v[i] = big.NewInt(int64(r.Intn(5)))
		default:
			v[i] = randBelow(r, rMod)
		}
		if i > 0 && r.Intn(2) == 0 { // next to another value
			x := new(big.Int).Add(v[r.Intn(i)], big.NewInt(int64(r.Intn(3)-1)))
			v[i] = x.Mod(x, rMod)
		}
	}
	return v
}

// ---- KYC

const (
	kR = iota
	kS
	kHash
	kAge
	kCountry
	kLevel
	kTime
	kMin
	kMax
	kLvl0
	kTime0
	kList
)

var (
	issuerX = bi("85997066971194522473057012223499312995837068047270353161199320975157154592866")
	issuerY = bi("40070151623224504185408656535330873345235311800089295101492157067180406840001")
	sampleR = bi("45536044045135930417610581277973574046122438970391757925449844580498097416238")
	sampleS = bi("77405625560525123464152303145240770328705524946250305291099118722847750339975")
	sampleH = bi("65836751601596300032969389553597263219621359970931417026813124302429596772205")
)

func kycIns(n int) []In {
	ins := []In{{name: "sigR", kind: KSecpN}, {name: "sigS", kind: KSecpN}, {name: "hash", kind: KSecpN}}
	for _, s := range []string{"age", "country", "level", "time", "minAge", "maxAge", "okLevel", "okTime"} {
		ins = append(ins, In{name: s, kind: KFr})
	}
	for i := 0; i < n; i++ {
		ins = append(ins, In{name: fmt.Sprintf("list%d", i), kind: KFr})
	}
	return ins
}

func (m *Machine) structVal(typ string, set map[string]Value) Value {
	t := m.prog.mainType(typ)
	if t == nil {
		unsup("type %s not found", typ)
	}
	return copyVal(*m.newStruct(t, set))
}

// condList is a level or time list of k entries: the input first, then constants.
func (m *Machine) condList(first *Term, k int) []Value {
	var o []Value
	for i := 0; i < k; i++ {
		if i > 0 {
			first = CI(int64(300 + i))
		}
		o = append(o, m.v(first))
	}
	return o
}

func kycCall(n int) func(m *Machine, in []*Term) ([]*Term, bool) { return kycCallShape(n, 1, 1) }

func kycCallShape(n, nl, nt int) func(m *Machine, in []*Term) ([]*Term, bool) {
	return func(m *Machine, in []*Term) ([]*Term, bool) {
		var list []Value
		for _, t := range in[kList : kList+n] {
			list = append(list, m.v(t))
		}
		kyc := m.structVal("KycType", map[string]Value{"Age": m.v(in[kAge]), "Country": m.v(in[kCountry]), "Level": m.v(in[kLevel]), "Time": m.v(in[kTime])})
		cond := m.structVal("Conditions", map[string]Value{"Age": Array{m.v(in[kMin]), m.v(in[kMax])}, "Country": list,
			"Level": m.condList(in[kLvl0], nl), "Time": m.condList(in[kTime0], nt)})
		e := m.defineCall("Circuit", map[string]Value{
			"Signature": Struct{EmuEl{in[kR], secpN}, EmuEl{in[kS], secpN}}, "KycHash": EmuEl{in[kHash], secpN}, "Kyc": kyc, "ConditionHash": cond})
		return nil, isErr(e)
	}
}

func kycGoShape(nl, nt int) string {
	return strings.Replace(kycGo, "c.ConditionHash.Level, c.ConditionHash.Time = []frontend.Variable{a[9]}, []frontend.Variable{a[10]}", fmt.Sprintf(`for i := 0; i < %d; i++ {
		if i == 0 { c.ConditionHash.Level = append(c.ConditionHash.Level, a[9]) } else { c.ConditionHash.Level = append(c.ConditionHash.Level, 300+i) }
	}
	for i := 0; i < %d; i++ {
		if i == 0 { c.ConditionHash.Time = append(c.ConditionHash.Time, a[10]) } else { c.ConditionHash.Time = append(c.ConditionHash.Time, 300+i) }
	}`, nl, nt), 1)
}

const kycGo = `//import "github.com/consensys/gnark/std/math/emulated"
//import "github.com/consensys/gnark/std/signature/ecdsa"
	c := &Circuit{
		Signature: ecdsa.Signature[emulated.Secp256k1Fr]{R: emulated.ValueOf[emulated.Secp256k1Fr](a[0]), S: emulated.ValueOf[emulated.Secp256k1Fr](a[1])},
		KycHash: emulated.ValueOf[emulated.Secp256k1Fr](a[2]),
	}
	c.Kyc.Age, c.Kyc.Country, c.Kyc.Level, c.Kyc.Time = a[3], a[4], a[5], a[6]
	c.ConditionHash.Age = [2]frontend.Variable{a[7], a[8]}
	c.ConditionHash.Level, c.ConditionHash.Time = []frontend.Variable{a[9]}, []frontend.Variable{a[10]}
	for _, x := range a[11:] { c.ConditionHash.Country = append(c.ConditionHash.Country, x) }
	return nil, c.Define(api)`

func sigOK(in []*Term) *Term {
	return Pred("ecdsa/secp256k1", C(issuerX), C(issuerY), in[kHash], in[kR], in[kS])
}
func ageOK(in []*Term) *Term { return And(Le(in[kMin], in[kAge]), Le(in[kAge], in[kMax])) }
func countryOK(in []*Term) *Term {
	c := falseT
	for _, t := range in[kList:] {
		c = Or(c, Eq(in[kCountry], t))
	}
	return c
}
func levelOK(in []*Term) *Term { return Eq(in[kLevel], in[kLvl0]) }
func timeOK(in []*Term) *Term  { return Eq(in[kTime], in[kTime0]) }

// kycVals draws mostly valid holders; focus spoils one aspect half of the time.
func kycVals(focus string) func(r *rand.Rand, ins []In) []*big.Int {
	turn := 0
	return func(r *rand.Rand, ins []In) []*big.Int {
		turn++
		spoil := turn%2 == 0
		n := len(ins) - kList
		v := make([]*big.Int, len(ins))
		v[kR], v[kS], v[kHash] = sampleR, sampleS, sampleH
		if r.Intn(3) == 0 {
			v[kS] = new(big.Int).Sub(secpN, sampleS)
		}
		pick := func() *big.Int {
			if r.Intn(2) == 0 {
				return big.NewInt(int64(r.Intn(4)))
			}
			return randBelow(r, rMod)
		}
		lo, hi := pick(), pick()
		if lo.Cmp(hi) > 0 {
			lo, hi = hi, lo
		}
		v[kMin], v[kMax] = lo, hi
		v[kAge] = new(big.Int).Add(lo, randBelow(r, new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)))
		switch r.Intn(3) {
		case 0:
			v[kAge] = lo
		case 1:
			v[kAge] = hi
		}
		for i := 0; i < n; i++ {
			v[kList+i] = pick()
		}
		v[kCountry] = pick()
		if n > 0 {
			v[kCountry] = v[kList+r.Intn(n)]
		}
		v[kLvl0], v[kTime0] = pick(), pick()
		v[kLevel], v[kTime] = v[kLvl0], v[kTime0]
		if !spoil {
			return v
		}
		off := func(x *big.Int, d int64) *big.Int {
			y := new(big.Int).Add(x, big.NewInt(d))
			return y.Mod(y, rMod)
		}
		switch focus {
		case "age":
			switch r.Intn(3) {
			case 0:
				v[kAge] = off(hi, 1)
			case 1:
				v[kAge] = off(lo, -1)
			default:
				v[kMin], v[kMax] = hi, lo
			}
		case "country":
			if n > 0 && r.Intn(2) == 0 { // not listed, but next to an entry
				v[kCountry] = off(v[kList+r.Intn(n)], 1)
			} else {
				v[kCountry] = randBelow(r, rMod)
			}
		case "signature":
			i := r.Intn(3)
			v[i] = new(big.Int).Add(v[i], big.NewInt(int64(1+r.Intn(2))))
			if r.Intn(3) == 0 {
				v[i] = new(big.Int).Add(randBelow(r, new(big.Int).Sub(secpN, big1)), big1)
			}
			v[i].Mod(v[i], secpN)
		case "level":
			v[kLevel] = off(v[kLvl0], 1)
		case "time":
			v[kTime] = off(v[kTime0], 1)
		}
		return v
	}
}

func kycGadget(n int, focus string, cond func(in []*Term) *Term, complete bool) *Gadget {
	return &Gadget{key: fmt.Sprintf("KYC %s/%d countries", focus, n), ins: kycIns(n), sound: true, compl: complete,
		pre:    func(in []*Term) *Term { return And(sigOK(in), ageOK(in), countryOK(in), levelOK(in), timeOK(in)) },
		reject: func(in []*Term) *Term { return Not(cond(in)) },
		call:   kycCall(n), goCode: kycGo, vals: kycVals(focus), traces: 2, noTrace: n != 2}
}

const assumeEcdsa = "gnark's ECDSA gadget decides signature validity on secp256k1 (an uninterpreted predicate of key, hash and signature; concrete runs use a real signature of the issuer)"

func init() {
	prop("C24", func(ck *Check) {
		ck.bound("every triple of field elements; every field element")
		ck.assumption("values are canonical field elements, compared as integers")
		f3 := []In{{name: "x", kind: KFr}, {name: "min", kind: KFr}, {name: "max", kind: KFr}}
		in3 := func(in []*Term) *Term { return And(Le(in[1], in[0]), Le(in[0], in[2])) }
		nz := func(in []*Term) *Term { return Not(Eq(in[0], CI(0))) }
		ck.Gadgets(&Gadget{key: "VerifyRangeCheck", ins: f3, sound: true, compl: true, pre: in3,
			reject: func(in []*Term) *Term { return Not(in3(in)) },
			call: func(m *Machine, in []*Term) ([]*Term, bool) {
				return nil, isErr(m.mainCall("VerifyRangeCheck", m.apiVal(), m.v(in[0]), m.v(in[1]), m.v(in[2])))
			},
			goCode: "return nil, VerifyRangeCheck(api, a[0], a[1], a[2])", vals: boundVals, traces: 24,
		}, &Gadget{key: "VerifyNotZero", ins: f3[:1], sound: true, compl: true, pre: nz,
			reject: func(in []*Term) *Term { return Not(nz(in)) },
			call: func(m *Machine, in []*Term) ([]*Term, bool) {
				return nil, isErr(m.mainCall("VerifyNotZero", m.apiVal(), m.v(in[0])))
			},
			goCode: "return nil, VerifyNotZero(api, a[0])", vals: boundVals, traces: 12,
		})
	})
	sizes := func(ck *Check) []int {
		if ck.tier == "thorough" {
			return []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16}
		}
		return []int{0, 1, 2, 3, 4, 5, 6}
	}
	shapes := [][3]int{{2, 0, 0}, {2, 0, 1}, {2, 1, 0}, {2, 2, 2}, {3, 3, 1}, {1, 1, 4}, {0, 0, 0}}
	mk := func(ck *Check, focus string, cond func(in []*Term) *Term) {
		ck.assumption(assumeEcdsa)
		ck.bound(fmt.Sprintf("every signature, hash, attribute and condition; country lists of %v entries with one level and one time entry, and (countries, levels, times) in %v", sizes(ck), shapes))
		var gs []*Gadget
		for _, n := range sizes(ck) {
			gs = append(gs, kycGadget(n, focus, cond, true))
		}
		// other numbers of level and time entries
		for _, sh := range shapes {
			g := kycGadget(sh[0], focus, cond, false)
			g.key += fmt.Sprintf(", %d levels, %d times", sh[1], sh[2])
			g.call, g.goCode, g.noTrace = kycCallShape(sh[0], sh[1], sh[2]), kycGoShape(sh[1], sh[2]), true
			gs = append(gs, g)
		}
		ck.Gadgets(gs...)
	}
	prop("C25", func(ck *Check) { mk(ck, "age", ageOK) })
	prop("C26", func(ck *Check) { mk(ck, "country", countryOK) })
	prop("C27", func(ck *Check) { mk(ck, "signature", sigOK) })
	prop("C28", func(ck *Check) {
		ck.assumption(assumeEcdsa)
		ck.bound("every signature, hash, attribute and condition; 2 countries, one level and one time entry; pairs of attribute sets under one hash and signature")
		var gs []*Gadget
		for _, c := range []struct {
			k string
			f func(in []*Term) *Term
		}{{"age", ageOK}, {"country", countryOK}} {
			g := kycGadget(2, c.k, c.f, false)
			g.key = "condition-" + c.k
			gs = append(gs, g)
		}
		ck.Gadgets(gs...)
		ck.kycBoth("condition-level", kLevel, kLvl0)
		ck.kycBoth("condition-time", kTime, kTime0)
		for i, k := range []string{"age", "country", "level", "time"} {
			ck.kycBinding("binding-"+k, kAge+i)
		}
	})
}

// kycBoth asks whether a value above and a value below the only admitted one
// are both accepted: no reading of the condition (equal, at least, at most)
// allows that.
func (ck *Check) kycBoth(key string, attr, cond int) {
	ck.kycPair(key, attr, func(in []*Term) (lo, hi, goal *Term, pre []*Term) {
		return Sub(in[cond], CI(1)), Add(in[cond], CI(1)), falseT, []*Term{Le(CI(1), in[cond]), Le(in[cond], CI(1000))}
	}, func(v, w []*big.Int) {
		v[cond], w[cond] = big.NewInt(300), big.NewInt(300)
		v[attr], w[attr] = big.NewInt(299), big.NewInt(301)
	}, "values below and above the only admitted one (%s and %s, admitted 300) are both accepted")
}

// kycBinding asks whether two holders who differ in one attribute can both be
// accepted with one signed hash.
func (ck *Check) kycBinding(key string, attr int) {
	ck.kycPair(key, attr, func(in []*Term) (*Term, *Term, *Term, []*Term) {
		o := Var(in[attr].name+"_other", big0, rMinus1)
		return in[attr], o, Eq(in[attr], o), nil
	}, func(v, w []*big.Int) {
		switch attr {
		case kAge:
			w[attr] = big.NewInt(36)
		case kCountry:
			w[attr] = big.NewInt(200)
		default:
			w[attr] = new(big.Int).Mod(new(big.Int).Add(v[attr], big1), rMod)
		}
	}, "two different values (%s and %s) are accepted under the same signed hash")
}

// kycPair looks for two accepted runs that differ in one attribute only.
func (ck *Check) kycPair(key string, attr int, sym func(in []*Term) (x, y, goal *Term, pre []*Term), conc func(v, w []*big.Int), text string) {
	const n = 2
	g := kycGadget(n, "", ageOK, false)
	ins := kycIns(n)
	in := make([]*Term, len(ins))
	for i := range ins {
		in[i] = ins[i].term()
	}
	x, y, goal, pre := sym(in)
	ex := ck.explorer(Adversarial)
	outs := ex.Explore(func(m *Machine) (Value, interface{}) {
		_, r := g.call(m, in)
		return nil, gadgetState{nil, r}
	})
	if ck.harness == nil {
		ck.harness = newHarness(ck)
	}
	for _, o := range outs {
		if o.kind == Unsupported || o.kind == BoundHit {
			ck.inconclusive("%s: %s", key, o.why)
			return
		}
	}
	for _, o := range outs {
		for _, o2 := range outs {
			if o.kind != Returned || o.st.(gadgetState).rejected || o2.kind != Returned || o2.st.(gadgetState).rejected {
				continue
			}
			all := append([]*Term(nil), pre...)
			for i, r := range []*Run{o.run, o2.run} {
				sb := newSubst()
				if t := []*Term{x, y}[i]; t != in[attr] {
					sb.bind(in[attr], t)
				}
				for _, f := range r.factTerms(nil) {
					all = append(all, sb.apply(f))
				}
			}
			ck.obl++
			p := ck.prover(all, nil)
			if p.Prove(goal) == Unsat {
				continue
			}
			ck.oblBad++
			ck.codes[key] = g.goCode
			v := kycVals("")(ck.rng, ins)
			v[kMin], v[kMax], v[kAge] = big.NewInt(18), big.NewInt(50), big.NewInt(35)
			v[kList], v[kList+1], v[kCountry] = big.NewInt(100), big.NewInt(200), big.NewInt(100)
			w := append([]*big.Int(nil), v...)
			conc(v, w)
			cs := []*Case{{Target: key, Args: strs(v)}, {Target: key, Args: strs(w)}}
			res := ck.harness.run(map[string]string{key: g.goCode}, cs)
			ck.stats.Traces += len(res)
			if len(res) == 2 && res[0].Status == "ok" && res[1].Status == "ok" {
				ck.violation(key, fmt.Sprintf("%s: "+text, key[strings.IndexByte(key, '-')+1:], v[attr], w[attr]), cs)
			} else {
				ck.inconclusive("%s: the attribute may differ (not reproduced)", key)
			}
			return
		}
	}
}
