package main

import (
	"fmt"
	"math/big"
	"math/rand"

	"golang.org/x/tools/go/ssa"
)

// The halo2 verifier for the fixed verifying key, written from the protocol:
// evaluation domain of size 2^23, generator omega, coset generator 7^(2^28),
// five blinding rows, two lookups, four permutation chunks.

const vkLog = 23

var (
	omega = bi("8374374965308410102411073611984011876711565317741801500439755773472076597347")
	delta = new(big.Int).Exp(big.NewInt(7), pow2(28), rMod)
	vkN   = int64(1) << vkLog
)

func omegaPow(k int64) *big.Int {
	e := new(big.Int).Mod(big.NewInt(k), pow2(vkLog))
	return new(big.Int).Exp(omega, e, rMod)
}
func deltaPow(k int64) *big.Int { return new(big.Int).Exp(delta, big.NewInt(k), rMod) }

// fld is arithmetic modulo r on terms.
func fSum(xs ...*Term) *Term {
	s := xs[0]
	for _, x := range xs[1:] {
		s = FAdd(s, x)
	}
	return intern(s)
}
func fProd(xs ...*Term) *Term {
	s := xs[0]
	for _, x := range xs[1:] {
		s = FMul(s, x)
	}
	return intern(s)
}
func fDiff(a, b *Term) *Term { return intern(FSub(a, b)) }
func fPow(x *Term, n int64) *Term {
	if n == 0 {
		return CI(1)
	}
	if n > 64 {
		return intern(Mod(Pow(x, int(n)), rMod))
	}
	s := x
	for i := int64(1); i < n; i++ {
		s = FMul(s, x)
	}
	return intern(s)
}

// vfIn names the verifier's inputs.
type vfIn struct {
	t                                  []*Term // 104 proof words
	aux                                []*Term // 21 auxiliary quotients
	c                                  []*Term // instance commitment
	theta, beta, gamma, y, x, yp, v, u *Term
}

func vfOf(in []*Term) vfIn {
	return vfIn{t: in[:104], aux: in[104:125], c: in[125:127],
		theta: in[127], beta: in[128], gamma: in[129], y: in[130], x: in[131], yp: in[132], v: in[133], u: in[134]}
}

func vfIns() []In {
	var ins []In
	pt := map[int]bool{}
	for _, i := range pointStarts() {
		pt[i] = true
	}
	for i := 0; i < 104; i++ {
		k := KFr
		if pt[i] {
			k = KPointX
		} else if i > 0 && pt[i-1] {
			k = KPointY
		}
		ins = append(ins, In{name: fmt.Sprintf("t%d", i), kind: k})
	}
	for i := 0; i < 21; i++ {
		ins = append(ins, In{name: fmt.Sprintf("aux%d", i), kind: KFr})
	}
	ins = append(ins, In{name: "cx", kind: KPointX}, In{name: "cy", kind: KPointY})
	for _, n := range []string{"theta", "beta", "gamma", "y", "x", "yp", "v", "u"} {
		ins = append(ins, In{name: n, kind: KFr})
	}
	return ins
}

// rot is omega^k * x.
func (s vfIn) rot(k int64) *Term { return fProd(C(omegaPow(k)), s.x) }

type quotient struct{ num, den *Term }

// auxSpec gives the quotient each auxiliary value must equal.
func (s vfIn) auxSpec() []quotient {
	one := CI(1)
	d := func(a, b int64) quotient { return quotient{one, fDiff(s.rot(a), s.rot(b))} }
	xn1 := fDiff(fPow(s.x, vkN), one)
	ninv := new(big.Int).ModInverse(big.NewInt(vkN), rMod)
	lag := func(k int64) quotient {
		c := new(big.Int).Mul(ninv, omegaPow(k))
		return quotient{fProd(C(c.Mod(c, rMod)), xn1), fDiff(s.x, C(omegaPow(k)))}
	}
	q := []quotient{
		d(-6, 0), d(-6, 1), d(0, -6), d(0, 1), d(1, -6), d(1, 0), d(-1, 0), d(0, -1),
		{one, fProd(fDiff(s.u, s.rot(-1)), fDiff(s.u, s.rot(2)))},
		lag(0), lag(-6), lag(-5), lag(-4), lag(-3), lag(-2), lag(-1),
		{s.numerator(), xn1},
		d(0, 2), d(1, 2), d(2, 0), d(2, 1),
	}
	return q
}

// constraints lists every gate, permutation and lookup expression at x.
func (s vfIn) constraints() []*Term {
	t := func(i int) *Term { return s.t[i] }
	one := CI(1)
	l0, lLast := s.aux[9], s.aux[10]
	active := fDiff(one, fSum(lLast, s.aux[11], s.aux[12], s.aux[13], s.aux[14], s.aux[15]))
	var e []*Term
	add := func(x *Term) { e = append(e, x) }
	sel := t(70)
	p2 := func(k int, x *Term) *Term { return fProd(C(pow2(k)), x) }
	// main gate
	add(fSum(t(58), fProd(t(50), t(59)), fProd(t(45), t(60)), fProd(t(46), t(61)), fProd(t(47), t(62)),
		fProd(t(48), t(63)), fProd(t(49), t(64)), fProd(t(45), t(46), t(65)), fProd(t(47), t(48), t(66))))
	// range gates: selector 1, 2 or 3 picks how many limbs compose the value
	low := fSum(t(53), p2(18, t(54)))
	add(fProd(fDiff(t(51), t(52)), sel, fDiff(sel, CI(2)), fDiff(sel, CI(3))))
	add(fProd(fDiff(t(51), fSum(low, p2(36, t(52)), p2(54, t(55)))), sel, fDiff(sel, one), fDiff(sel, CI(3))))
	add(fProd(fDiff(t(51), fSum(low, p2(36, t(56)), p2(54, t(52)), p2(72, t(55)), p2(90, t(57)))), sel, fDiff(sel, one), fDiff(sel, CI(2))))
	// permutation argument
	z, zw, zl := []*Term{t(79), t(82), t(85), t(88)}, []*Term{t(80), t(83), t(86), t(89)}, []*Term{t(81), t(84), t(87)}
	cols := [][]*Term{{t(45), t(46)}, {t(47), t(48)}, {t(49), t(51)}, {t(44)}}
	add(fProd(l0, fDiff(one, z[0])))
	add(fProd(lLast, fDiff(fProd(z[3], z[3]), z[3])))
	for i := 1; i < 4; i++ {
		add(fProd(l0, fDiff(z[i], zl[i-1])))
	}
	k := 0
	for i, c := range cols {
		l, r := zw[i], z[i]
		for _, a := range c {
			l = fProd(l, fSum(a, fProd(s.beta, t(72+k)), s.gamma))
			r = fProd(r, fSum(a, fProd(s.beta, C(deltaPow(int64(k))), s.x), s.gamma))
			k++
		}
		add(fProd(active, fDiff(l, r)))
	}
	// lookups: z, z(wx), permuted input, permuted input(x/w), permuted table
	table := fSum(fProd(s.theta, t(68)), t(69))
	for i, input := range []*Term{fSum(fProd(s.theta, t(67)), t(52)), fSum(fProd(s.theta, CI(18)), t(53))} {
		b := 90 + 5*i
		z, zw, a, ap, tb := t(b), t(b+1), t(b+2), t(b+3), t(b+4)
		add(fProd(l0, fDiff(one, z)))
		add(fProd(lLast, fDiff(fProd(z, z), z)))
		add(fProd(active, fDiff(fProd(zw, fSum(a, s.beta), fSum(tb, s.gamma)), fProd(z, fSum(input, s.beta), fSum(table, s.gamma)))))
		add(fProd(l0, fDiff(a, tb)))
		add(fProd(active, fDiff(a, tb), fDiff(a, ap)))
	}
	return e
}

// numerator folds the constraints with powers of y, the last with weight one.
func (s vfIn) numerator() *Term {
	n := CI(0)
	for _, e := range s.constraints() {
		n = fSum(fProd(n, s.y), e)
	}
	return n
}

// opening is one polynomial of the multi-opening argument.
type opening struct {
	c  *LC     // its commitment
	ev []*Term // its evaluations at the points of its rotation set
}
type rotSet struct {
	pts []int64
	ops []opening
}

func vkPoint(i int) *LC { return pointOf(C(bi(vkPoints[i][0])), C(bi(vkPoints[i][1]))) }

// sets lists the rotation sets in protocol order.
func (s vfIn) sets() []rotSet {
	P := func(i int) *LC { return pointOf(s.t[i], s.t[i+1]) }
	t := func(is ...int) []*Term {
		var o []*Term
		for _, i := range is {
			o = append(o, s.t[i])
		}
		return o
	}
	h := pointOf(s.t[38], s.t[39])
	h = lcAdd(h, lcScale(P(40), fPow(s.x, vkN)))
	h = lcAdd(h, lcScale(P(42), fProd(fPow(s.x, vkN), fPow(s.x, vkN))))
	at := []opening{{pointOf(s.c[0], s.c[1]), t(44)}, {P(0), t(45)}, {P(2), t(46)}, {P(4), t(47)}, {P(6), t(48)}, {P(10), t(51)},
		{P(18), t(94)}, {P(22), t(99)}}
	for i := range vkPoints {
		e := 58 + i
		if i >= 13 {
			e = 72 + i - 13
		}
		at = append(at, opening{vkPoint(i), t(e)})
	}
	at = append(at, opening{h, []*Term{s.aux[16]}}, opening{P(36), t(71)})
	return []rotSet{
		{[]int64{0, 1, -6}, []opening{{P(24), t(79, 80, 81)}, {P(26), t(82, 83, 84)}, {P(28), t(85, 86, 87)}}},
		{[]int64{0, -1}, []opening{{P(16), t(92, 93)}, {P(20), t(97, 98)}}},
		{[]int64{0}, at},
		{[]int64{0, 1}, []opening{{P(8), t(49, 50)}, {P(30), t(88, 89)}, {P(32), t(90, 91)}, {P(34), t(95, 96)}}},
		{[]int64{0, 1, 2}, []opening{{P(12), t(52, 55, 57)}, {P(14), t(53, 54, 56)}}},
	}
}

// inv is the inverse of rot(a)-rot(b), one of the auxiliary values.
func (s vfIn) inv(a, b int64) *Term {
	for i, p := range map[int][2]int64{0: {-6, 0}, 1: {-6, 1}, 2: {0, -6}, 3: {0, 1}, 4: {1, -6}, 5: {1, 0}, 6: {-1, 0}, 7: {0, -1}, 17: {0, 2}, 18: {1, 2}, 19: {2, 0}, 20: {2, 1}} {
		if p == [2]int64{a, b} {
			return s.aux[i]
		}
	}
	panic("no such difference")
}

var allRots = []int64{0, 1, -1, 2, -6}

// pairing gives the two G1 elements of the final check (multi-opening by
// Boneh, Drake, Fisch and Gabizon, normalised by the first set's complement).
func (s vfIn) pairing() (*LC, *LC) {
	in := func(xs []int64, k int64) bool {
		for _, x := range xs {
			if x == k {
				return true
			}
		}
		return false
	}
	acc := lcInf // sum of commitments
	ev := CI(0)  // sum of evaluations
	var z0 *Term
	for i, set := range s.sets() {
		w := CI(1)
		if i == 0 {
			z0 = CI(1)
			for _, k := range set.pts {
				z0 = fProd(z0, fDiff(s.u, s.rot(k)))
			}
		} else {
			w = s.aux[8] // 1/((u-x/w)(u-w^2x))
			for _, k := range allRots {
				if !in(set.pts, k) {
					w = fProd(w, fDiff(s.u, s.rot(k)))
				}
			}
		}
		c, e := lcInf, CI(0)
		for _, o := range set.ops {
			// interpolate the evaluations at u
			r := CI(0)
			for j, a := range set.pts {
				l := o.ev[j]
				for _, b := range set.pts {
					if b != a {
						l = fProd(l, fDiff(s.u, s.rot(b)), s.inv(a, b))
					}
				}
				r = fSum(r, l)
			}
			c = lcAdd(lcScale(c, s.yp), o.c)
			e = fSum(fProd(e, s.yp), r)
		}
		acc = lcAdd(lcScale(acc, s.v), lcScale(c, w))
		ev = fSum(fProd(ev, s.v), fProd(e, w))
	}
	P := func(i int) *LC { return pointOf(s.t[i], s.t[i+1]) }
	g := pointOf(CI(1), CI(2))
	acc = lcAdd(acc, lcNeg(lcScale(g, ev)))
	acc = lcAdd(acc, lcNeg(lcScale(P(100), z0)))
	acc = lcAdd(acc, lcScale(P(102), s.u))
	return P(102), acc
}

// the verifying key: commitments of fixed columns 58..70, then of the
// permutation polynomials 72..78.
var vkPoints = [][2]string{
	{"14938380413158645463746726818663993049411440720262319458512240364576743949172", "612698444000497655149316219443956538920213548045757527589465098726453410217"},
	{"1602442613231540506062434465510844080484629772386483161935289973450738328411", "8632200768118172237953570969696965645934378330803102067059028669153881824687"},
	{"7302810833326292183657845455542786945088085612690237136517265240120492143686", "12265020872042776853325862543934338413628778238311540007481750568301839403357"},
	{"15714457855017303792793529634633875645702708944223275612000098593544931343989", "15257349176403661815620892222123615612513039066905856829097618251943836626674"},
	{"6588502116763777047662055789514359601800459134197048587585162560883404012798", "11714447983073049655392713639630119352182916653299642193786804830268642535746"},
	{"9125246457194062079192598275178850075343678690105278369118112655547944406336", "294075161521838319967190643963225379772318561607769296285010787743709643736"},
	{"21619461572256759847460179508152708219554585855297084173283796582786124555803", "4345524860916738024637605707697977254152854672257192099656709386158566955621"},
	{"17258678549324502889708499924818360135272319280666991023610380123832805047961", "5334989116053542497869652553010890811115308152577125353854023583257775982812"},
	{"5308159394739710035241344480420553410175387652800783904684585252715061491340", "3019131547261358901530790449779825851153791728474681515444029058543922522335"},
	{"15488644080723619432119612346004359086916581306660788742559926675716559909239", "8754616038193501373921013994731307318251353370144049595366428636287857472101"},
	{"9621060932553241457331309181312468446375012848693562416915297961501104714797", "18774224011527979955178720803820949077824414817387957068075380161701868796982"},
	{"7332275780326935691999111227339181700750973508937555651107089016408829877447", "10101962784746658718602667114782992736503033294933308373536577801383886245995"},
	{"18180235640340843615912844522870848024440129915340282133294923228193557588624", "16150223963193906991297402627411591966306440109235686551266596870812093013098"},
	{"14330957265734295635487529150089503047509680887155412481838936779763595454159", "11657029790297552620042403612079612021781553164410884915460958808861335447799"},
	{"3217632689962165131030083420553195932069690674124201615821228288158667916559", "11279851209809827628209572028517900058696331891386803672043677236706605258017"},
	{"6052548824579324632823008857297151984962554125394528409163563861993455062230", "5253299219790956244634070239415866732913146545893144333850618503587190167918"},
	{"20134811260136067172423268982757475565512657205230154765724273546621797752349", "6892971650116630821526804754060441250258363920342589425839414580605638919318"},
	{"17209526517725877136177243553045588666670528061781328851527842192340596792007", "673380535462416015709313880421335139519451950072360935904307055208109203957"},
	{"9973741392326192617521393709476164203221054644042980686853312098867551316157", "9696890272060053851986158851707718469926088811173404342570425124396426957984"},
	{"14118917696035322873139367456503207319385222068825598680486765986706935215403", "18580702656451937158771044279900207779359395181895031379070145857747412641911"},
}

// honestAux fills in the auxiliary values an honest prover supplies; false when
// one of them does not exist.
func honestAux(env Env, in []*Term, v []*big.Int) bool {
	all := true
	s := vfOf(in)
	for i, q := range s.auxSpec() {
		n, e1 := env.Eval(q.num)
		d, e2 := env.Eval(q.den)
		if e1 != nil || e2 != nil {
			panic(fmt.Sprint("auxiliary value: ", e1, e2))
		}
		if d.Sign() == 0 {
			all = false
			continue
		}
		x := new(big.Int).ModInverse(d, rMod)
		x.Mul(x, n)
		v[104+i] = x.Mod(x, rMod)
		env[s.aux[i]] = v[104+i]
	}
	return all
}

// verifierVals draws a proof with matching auxiliary values; wrong > 0 makes
// one of them wrong now and then.
func verifierVals(wrong bool) func(r *rand.Rand, ins []In) []*big.Int {
	turn := 0
	return func(r *rand.Rand, ins []In) []*big.Int {
		v := make([]*big.Int, len(ins))
		env := Env{}
		in := make([]*Term, len(ins))
		for i := range ins {
			in[i] = ins[i].term()
			if ins[i].kind == KPointX {
				p := randPoint(r)
				v[i], v[i+1] = p.x, p.y
			} else if v[i] == nil {
				v[i] = randBelow(r, rMod)
			}
			if i == 70 && r.Intn(2) == 0 { // the range selector takes small values
				v[i] = big.NewInt(int64(r.Intn(4)))
			}
			env[in[i]] = v[i]
		}
		honestAux(env, in, v)
		if wrong && turn%2 == 1 {
			i := 104 + (turn/2)%21
			switch r.Intn(3) {
			case 0:
				v[i] = new(big.Int).Mod(new(big.Int).Add(v[i], big1), rMod)
			case 1:
				v[i] = big.NewInt(0)
			default:
				v[i] = new(big.Int).Mod(new(big.Int).Neg(v[i]), rMod)
			}
		}
		turn++
		return v
	}
}

const verifierGo = `tr := make([]frontend.Variable, 104)
	for i := range tr { tr[i] = new(big.Int).Set(a[i]) }
	aux := make([]frontend.Variable, 21)
	for i := range aux { aux[i] = new(big.Int).Set(a[104+i]) }
	var buf [43]frontend.Variable
	for i := range buf { buf[i] = big.NewInt(0) }
	for i := 0; i < 10; i++ { buf[i] = new(big.Int).Set(a[125+i]) }
	buf, err = VerifyProof1(api, tr, aux, buf)
	if err != nil { return nil, err }
	buf, err = VerifyProof2(api, tr, aux, buf)
	if err != nil { return nil, err }
	buf, err = VerifyProof3(api, tr, aux, buf)
	if err != nil { return nil, err }
	return buf[10:14], nil`

// longPowers replaces exponentiations with a large constant exponent by their
// result, which C02 establishes for the same loop: the code multiplies 2^23 times.
func longPowers(r *Run) {
	if r.override == nil {
		r.override = map[string]func(m *Machine, fn *ssa.Function, args []Value) Value{}
	}
	r.override["gnark-halo2-verify.fr_pow"] = func(m *Machine, fn *ssa.Function, args []Value) Value {
		if len(args) != 3 {
			return nil
		}
		n, ok := m.varTerm(args[2].(Iface))
		if !ok || n.op != OConst || n.k.BitLen() > 30 || n.k.BitLen() < 13 {
			return nil
		}
		return m.v(intern(Mod(Pow(m.fcan(args[1]), int(n.k.Int64())), rMod)))
	}
}

func verifierGadget(key string, checkAux []int, outs bool) *Gadget {
	g := &Gadget{key: key, ins: vfIns(), sound: true,
		dom: func(in []*Term) *Term {
			var c []*Term
			for _, i := range append(pointStarts(), 125) {
				c = append(c, OnCurve(in[i], in[i+1]))
			}
			return And(c...)
		},
		call: func(m *Machine, in []*Term) ([]*Term, bool) {
			var tr, aux []Value
			for _, t := range in[:104] {
				tr = append(tr, m.v(t))
			}
			for _, t := range in[104:125] {
				aux = append(aux, m.v(t))
			}
			buf := make(Array, 43)
			for i := range buf {
				buf[i] = m.v(CI(0))
			}
			for i := 0; i < 10; i++ {
				buf[i] = m.v(in[125+i])
			}
			var cur Value = buf
			for _, n := range []string{"VerifyProof1", "VerifyProof2", "VerifyProof3"} {
				r := m.mainCall(n, m.apiVal(), tr, aux, cur).(Tuple)
				if isErr(r[1]) {
					return nil, true
				}
				cur = r[0]
			}
			if !outs {
				return nil, false
			}
			b := cur.(Array)
			var o []*Term
			for i := 10; i < 14; i++ {
				o = append(o, m.varOut(b[i]))
			}
			return o, false
		},
		goCode:    verifierGo,
		setup:     longPowers,
		complReal: true,
		pre: func(in []*Term) *Term {
			s := vfOf(in)
			var ok []*Term
			for i, q := range s.auxSpec() {
				ok = append(ok, Not(Eq(q.den, CI(0))), Eq(fProd(s.aux[i], q.den), q.num))
			}
			return And(ok...)
		},
		vals:   verifierVals(len(checkAux) > 0),
		traces: 2,
	}
	for i := 0; i < 21; i++ {
		g.solve = append(g.solve, 104+i)
	}
	// a wrong value that changes nothing is no violation: the code may derive it itself
	g.harmless = func(ck *Check, vals []*big.Int, r *Result) bool {
		in := make([]*Term, len(g.ins))
		v := append([]*big.Int(nil), vals...)
		for i := range g.ins {
			in[i] = g.ins[i].term()
		}
		if !honestAux(envOf(in, v), in, v) {
			return false
		}
		h := ck.harness.run(ck.code(g), []*Case{{Target: g.key, Args: strs(v)}})
		if len(h) != 1 || h[0].Status != "ok" || len(h[0].Outs) != len(r.Outs) {
			return false
		}
		for i := range h[0].Outs {
			if h[0].Outs[i] != r.Outs[i] {
				return false
			}
		}
		return true
	}
	if len(checkAux) > 0 {
		g.reject = func(in []*Term) *Term {
			s := vfOf(in)
			q := s.auxSpec()
			var ok []*Term
			for _, i := range checkAux {
				ok = append(ok, Not(Eq(q[i].den, CI(0))), Eq(fProd(s.aux[i], q[i].den), q[i].num))
			}
			return Not(And(ok...))
		}
	}
	if outs {
		g.outs = func(in []*Term) []*Term {
			a, b := vfOf(in).pairing()
			return []*Term{intern(Mod(lcX(a), rMod)), intern(Mod(lcY(a), rMod)), intern(Mod(lcX(b), rMod)), intern(Mod(lcY(b), rMod))}
		}
	}
	return g
}

func init() {
	const lib = "gnark's emulated curve gadget is complete for AddUnified and exact where ScalarMul accepts; points are formal linear combinations of the proof's, the verifying key's and the instance's points"
	dom := "all 104 proof words with the 24 points on the curve, the instance commitment, all 8 challenges, all 21 auxiliary values and every hint answer"
	var all []int
	for i := 0; i < 21; i++ {
		all = append(all, i)
	}
	prop("C19", func(ck *Check) {
		ck.bound(dom)
		ck.assumption(lib)
		ck.assumption("auxiliary slots 9..15 are the Lagrange evaluations l_0, l_-6..l_-1 and slot 16 is the quotient evaluation")
		ck.Gadgets(verifierGadget("quotient", []int{9, 10, 11, 12, 13, 14, 15, 16}, false))
	})
	prop("C20", func(ck *Check) {
		ck.bound(dom)
		ck.assumption(lib)
		g := verifierGadget("multi-opening", all, true)
		ck.Gadgets(g)
	})
	prop("C21", func(ck *Check) {
		ck.bound(dom)
		ck.assumption(lib)
		ck.Gadgets(verifierGadget("auxiliary values", all, false))
	})
}
