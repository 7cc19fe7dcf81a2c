S={}
IMP='''
package main

import (
%s)

'''
def seed(id,prop,edits,imports,demo,needs,breaks):
    im=''.join('\t%s\n'%x if '"' in x else '\t"%s"\n'%x for x in imports)
    S[id]=dict(property=prop,edits=edits,demo=IMP%im+demo.strip()+'\n',needs=needs,breaks=breaks)
LIB='aggregator_lib_circuit.go'
T=['testing']
FE=['math/big','testing','github.com/consensys/gnark/frontend']

seed('pow-squaring','C02',[('fr.go','''	var res frontend.Variable = big.NewInt(1)
	for i := new(big.Int); i.Cmp(power.(*big.Int)) < 0; {
		i = i.Add(i, big.NewInt(1))
		res = api.Mul(res, a)
	}

	return mod(api, res)
''','''	var res frontend.Variable = big.NewInt(1)
	n := power.(*big.Int)
	for i := 1; i < n.BitLen(); i++ {
		a = api.Mul(a, a)
		if n.Bit(i) == 1 {
			res = api.Mul(res, a)
		}
	}

	return mod(api, res)
''')],FE,'''
func TestSeededDemo(t *testing.T) {
	for _, n := range []int64{0, 1, 2, 3, 6, 8, 13} {
		err := dmRun(func(api frontend.API) error {
			r := fr_pow(api, big.NewInt(3), big.NewInt(n))
			if want := new(big.Int).Exp(big.NewInt(3), big.NewInt(n), nil); !dmEq(r, want) {
				t.Errorf("3^%d: got %v", n, dmVal(r))
			}
			return nil
		}, nil)
		if err != nil {
			t.Error(err)
		}
	}
}
''','an odd power','fr_pow by repeated squaring ignores the lowest bit of the power')

seed('reduce-product','C03',[('fr.go','	api.AssertIsEqual(api.Add(results[1], api.Mul(results[0], MODULUS)), a)\n',
'	api.AssertIsEqual(api.Mul(results[0], api.Sub(a, results[1])), 0)\n')],FE,'''
func TestSeededDemo(t *testing.T) {
	err := dmRun(func(api frontend.API) error {
		r := mod(api, big.NewInt(12345))
		if !dmEq(r, big.NewInt(12345)) {
			t.Errorf("forged remainder %v accepted", dmVal(r))
		}
		return nil
	}, func(h string, in, out []*big.Int) {
		if h == "modHint" {
			out[0].SetInt64(0)
			out[1].SetInt64(777)
		}
	})
	t.Log(err)
}
''','a dishonest reduction hint','the constraint only ties the remainder to the input when the claimed quotient is non-zero')

seed('div-cancel','C04',[('fr.go','''	api.AssertIsEqual(r, a)
	return mod(api, aux)''','''	// compare after clearing the common factor
	api.AssertIsEqual(fr_mul(api, r, a), fr_mul(api, a, a))
	return mod(api, aux)''')],FE,'''
func TestSeededDemo(t *testing.T) {
	err := dmRun(func(api frontend.API) error {
		fr_div(api, big.NewInt(0), big.NewInt(5), big.NewInt(9))
		return nil
	}, nil)
	if err == nil {
		t.Error("0/5 = 9 accepted")
	}
}
''','a zero dividend','0/b accepts any claimed quotient')

seed('pack-word','C05',[('utils.go','''	res := inputs[0]
''','''	if len(inputs) > 32 {
		inputs = inputs[:32]
	}
	res := inputs[0]
''')],FE,'''
func TestSeededDemo(t *testing.T) {
	for _, n := range []int{1, 2, 31, 32, 33, 40} {
		err := dmRun(func(api frontend.API) error {
			var in []frontend.Variable
			want := new(big.Int)
			for i := 0; i < n; i++ {
				in = append(in, big.NewInt(int64(i*7+3)))
				want.Add(want.Lsh(want, 8), big.NewInt(int64(i*7+3)))
			}
			if r := PackUInt8Variables(api, in...); !dmEq(r, want) {
				t.Errorf("%d bytes packed wrongly", n)
			}
			return nil
		}, nil)
		if err != nil {
			t.Error(err)
		}
	}
}
''','more than 32 bytes','bytes after the 32nd are dropped')

seed('instance-hash-word','C07',[('circuit.go','''	return PackUInt8Variables(api, result[1:33]...), err
	//return result[0], err''','''	return result[0], err''')],FE,'''
func TestSeededDemo(t *testing.T) {
	forged := false
	err := dmRun(func(api frontend.API) error {
		r, err := VerifyInstanceHash(api, []frontend.Variable{big.NewInt(5), big.NewInt(6)})
		forged = err == nil && dmEq(r, big.NewInt(4242))
		return err
	}, func(h string, in, out []*big.Int) {
		if h == "Keccak256Hint" {
			out[0].SetInt64(4242)
		}
	})
	if err == nil && forged {
		t.Error("forged digest accepted")
	}
}
''','a dishonest hash hint','the digest word comes straight from the hint, only the digest bytes are checked')

seed('sha-prefix','C08',[(LIB,'''	h, err := sha2.New(api)
	if err != nil {
		return err
	}
	uapi, err := uints.New[uints.U64](api)
	if err != nil {
		return err
	}

	h.Write(inputValue)
	res := h.Sum()

	for i := range res {
		uapi.ByteAssertEq(hashValue[i], res[i])
	}
''','''	h, err := sha2.New(api)
	if err != nil {
		return err
	}
	uapi, err := uints.New[uints.U64](api)
	if err != nil {
		return err
	}

	h.Write(inputValue)
	res := h.Sum()

	for i := 1; i < len(res); i++ {
		uapi.ByteAssertEq(hashValue[i], res[i])
	}
''')],['crypto/sha256','testing','github.com/consensys/gnark/frontend','github.com/consensys/gnark/std/math/uints'],'''
func TestSeededDemo(t *testing.T) {
	for i := 0; i < 32; i++ {
		d := sha256.Sum256([]byte("abc"))
		d[i] ^= 1
		err := dmRun(func(api frontend.API) error {
			return VerifySha256(api, uints.NewU8Array([]byte("abc")), uints.NewU8Array(d[:]))
		}, nil)
		if err == nil {
			t.Errorf("digest wrong in byte %d accepted", i)
		}
	}
}
''','a digest wrong in its first byte only','the first digest byte is not compared')

seed('squeeze-skip-zero','C09',[(LIB,'''		res := absorbing[i].(*big.Int).FillBytes(make([]byte, 32))
		inputBytes = append(inputBytes, res[:]...)
''','''		if absorbing[i].(*big.Int).Sign() == 0 {
			continue
		}
		res := absorbing[i].(*big.Int).FillBytes(make([]byte, 32))
		inputBytes = append(inputBytes, res[:]...)
''')],['crypto/sha256']+FE,'''
func TestSeededDemo(t *testing.T) {
	for _, vals := range [][]int64{{5, 7}, {5, 0, 7}, {0}, {9, 0}} {
		err := dmRun(func(api frontend.API) error {
			buf := make([]frontend.Variable, 112)
			var msg []byte
			for i, v := range vals {
				buf[i] = big.NewInt(v)
				msg = append(msg, big.NewInt(v).FillBytes(make([]byte, 32))...)
			}
			d := sha256.Sum256(append(msg, 0))
			c, err := SqueezeChallenge(api, buf, len(vals))
			if err == nil && !dmEq(c, new(big.Int).SetBytes(d[:])) {
				t.Errorf("%v: wrong challenge", vals)
			}
			return err
		}, nil)
		if err != nil {
			t.Error(err)
		}
	}
}
''','an absorbed element equal to zero','zero elements are left out of the transcript hash')

seed('last-point-stale','C11',[(LIB,'''	//u
	buf[9], err = SqueezeChallenge(api, absorbing, pos)
	if err != nil {
		return err
	}

	err = VerifyCheckOnCurve(api, transcript[transcriptPos], transcript[transcriptPos+1])
''','''	//u
	buf[9], err = SqueezeChallenge(api, absorbing, pos)
	if err != nil {
		return err
	}

	err = VerifyCheckOnCurve(api, absorbing[pos-2], absorbing[pos-1])
''')],FE,'''
func TestSeededDemo(t *testing.T) {
	for k := 0; k < 104; k++ {
		if k >= 44 && k < 100 {
			continue
		}
		err := dmRun(func(api frontend.API) error {
			tr := make([]frontend.Variable, 104)
			for i := range tr {
				tr[i] = dmBig(proofStr[i])
			}
			tr[k] = new(big.Int).Add(tr[k].(*big.Int), big.NewInt(1))
			buf := make([]frontend.Variable, 43)
			buf[0], buf[1] = big.NewInt(1), big.NewInt(2)
			return GetChallengesShPlonkCircuit(api, buf, tr)
		}, nil)
		if err == nil {
			t.Errorf("proof word %d moved its point off the curve unnoticed", k)
		}
	}
}
''','a proof whose last opening point is off the curve','the final on-curve check looks at the previous point again')

seed('mul-x-only','C12',[('msm.go','''	expectedRes := sw_emulated.AffinePoint[emparams.BN254Fp]{
		X: emulated.ValueOf[emparams.BN254Fp](expectedX),
		Y: emulated.ValueOf[emparams.BN254Fp](expectedY),
	}
	cr.AssertIsEqual(res, &expectedRes)
	return nil
}

type BN254Add struct {''','''	expectedRes := sw_emulated.AffinePoint[emparams.BN254Fp]{
		X: emulated.ValueOf[emparams.BN254Fp](expectedX),
		Y: emulated.ValueOf[emparams.BN254Fp](expectedY),
	}
	cr.AssertIsOnCurve(&expectedRes)
	field, err := emulated.NewField[emparams.BN254Fp](api)
	if err != nil {
		return err
	}
	field.AssertIsEqual(&res.X, &expectedRes.X)
	return nil
}

type BN254Add struct {''')],FE,'''
func TestSeededDemo(t *testing.T) {
	p := dmBig(FpModulus)
	err := dmRun(func(api frontend.API) error {
		_, err := CalcVerifyBN256Msm(api, big.NewInt(1), big.NewInt(2), big.NewInt(77))
		return err
	}, func(h string, in, out []*big.Int) {
		if h == "MsmHint" {
			out[1].Sub(p, out[1])
		}
	})
	if err == nil {
		t.Error("negated product accepted")
	}
}
''','a prover that supplies the opposite point','only the x coordinate of the product is compared; the negated product is accepted')

seed('add-incomplete','C13',[('msm.go','	res := cr.AddUnified(ps1, ps2)\n','	res := cr.Add(ps1, ps2)\n')],FE+['github.com/consensys/gnark-crypto/ecc/bn254'],'''
func TestSeededDemo(t *testing.T) {
	_, _, g, _ := bn254.Generators()
	for _, k := range [][2]int64{{1, 3}, {2, 2}, {5, 5}} {
		var a, b, c bn254.G1Affine
		a.ScalarMultiplication(&g, big.NewInt(k[0]))
		b.ScalarMultiplication(&g, big.NewInt(k[1]))
		c.ScalarMultiplication(&g, big.NewInt(k[0]+k[1]))
		v := func(p bn254.G1Affine) [2]frontend.Variable {
			return [2]frontend.Variable{p.X.BigInt(new(big.Int)), p.Y.BigInt(new(big.Int))}
		}
		err := dmRun(func(api frontend.API) error { return VerifyBN254Add(api, v(a), v(b), v(c)) }, nil)
		if err != nil {
			t.Errorf("%v: true sum rejected: %v", k, err)
		}
	}
}
''','two equal points','the addition law is incomplete: doubling fails')

seed('addhint-second-point','C14',[(LIB,'''	_, err = p2.Unmarshal(blob2)
	if err != nil {
		return err
	}

	res := new(bn256.G1)
	res = res.Add(p1, p2)
''','''	if _, err := p2.Unmarshal(blob2); err != nil {
		p2 = new(bn256.G1).ScalarBaseMult(new(big.Int))
	}

	res := new(bn256.G1)
	res = res.Add(p1, p2)
''')],['math/big','testing'],'''
func TestSeededDemo(t *testing.T) {
	for _, in := range [][4]int64{{1, 2, 1, 3}, {1, 3, 1, 2}, {5, 5, 7, 7}} {
		var v []*big.Int
		for _, x := range in {
			v = append(v, big.NewInt(x))
		}
		if err := AddHint(nil, v, []*big.Int{new(big.Int), new(big.Int)}); err == nil {
			t.Errorf("%v: invalid point not refused", in)
		}
	}
}
''','a second summand that is not on the curve','the hint silently replaces an invalid second point by infinity')

seed('msm-pairs','C16',[('msm.go','	res, err := cr.MultiScalarMul(ps, ss)\n','''	// the library folds the terms two at a time: drop equal neighbours
	for i := len(ps) - 1; i > 0; i-- {
		if len(ps) > 2 && ps[i] == ps[i-1] || i > 3 {
			ps, ss = ps[:i], ss[:i]
		}
	}
	res, err := cr.MultiScalarMul(ps, ss)
''')],FE+['github.com/consensys/gnark-crypto/ecc/bn254','github.com/consensys/gnark/std/algebra/emulated/sw_emulated','github.com/consensys/gnark/std/math/emulated','"github.com/consensys/gnark/std/math/emulated/emparams"'],'''
func TestSeededDemo(t *testing.T) {
	_, _, g, _ := bn254.Generators()
	pt := func(k int64) sw_emulated.AffinePoint[emulated.BN254Fp] {
		var a bn254.G1Affine
		a.ScalarMultiplication(&g, big.NewInt(k))
		return sw_emulated.AffinePoint[emulated.BN254Fp]{X: emulated.ValueOf[emparams.BN254Fp](a.X), Y: emulated.ValueOf[emparams.BN254Fp](a.Y)}
	}
	for n := int64(1); n <= 6; n++ {
		err := dmRun(func(api frontend.API) error {
			var ps []sw_emulated.AffinePoint[emulated.BN254Fp]
			var ss []emulated.Element[emparams.BN254Fr]
			sum := int64(0)
			for i := int64(1); i <= n; i++ {
				ps = append(ps, pt(i+4))
				ss = append(ss, emulated.ValueOf[emparams.BN254Fr](3*i+1))
				sum += (i + 4) * (3*i + 1)
			}
			return VerifyMultiScalarMul(api, ps, ss, pt(sum))
		}, nil)
		if err != nil {
			t.Errorf("%d terms: %v", n, err)
		}
	}
}
''','five or more terms','terms after the fourth are dropped from the sum')

AUXDEMO='''
func TestSeededDemo(t *testing.T) {
	run := func(i int, delta int64) error {
		return dmRun(func(api frontend.API) error {
			var tr, aux []frontend.Variable
			for _, s := range proofStr {
				tr = append(tr, dmBig(s))
			}
			for _, s := range auxStr {
				aux = append(aux, dmBig(s))
			}
			aux[i] = new(big.Int).Add(aux[i].(*big.Int), big.NewInt(delta))
			var buf [43]frontend.Variable
			for i := range buf {
				buf[i] = big.NewInt(0)
			}
			var err error
			var hash frontend.Variable
			hash, err = VerifyInstanceHash(api, []frontend.Variable{dmBig("7059793422771910484"), dmBig("2556686405730241944"), dmBig("2133554817341762742"), dmBig("8974371243071329347"), dmBig("10573525131658455000365299935369648652552518565632155338390913030155084554858")})
			if err != nil {
				return err
			}
			buf[2] = mod(api, hash)
			if err = CalcVerifyCircuitLagrange(api, buf[:]); err != nil {
				return err
			}
			if err = GetChallengesShPlonkCircuit(api, buf[:], tr); err != nil {
				return err
			}
			if buf, err = VerifyProof1(api, tr, aux, buf); err != nil {
				return err
			}
			_, err = VerifyProof2(api, tr, aux, buf)
			return err
		}, nil)
	}
	if err := run(0, 0); err != nil {
		t.Fatal(err)
	}
	for i := 14; i < 21; i++ {
		if run(i, 1) == nil {
			t.Errorf("wrong auxiliary value %d accepted", i)
		}
	}
}
'''
seed('quotient-free','C19',[('AggregatorVerifierStep2.go','''	buf[31] = fr_div(api,
		fr_add(api,
			buf[31],
			fr_mul(api,
				fr_mul(api,
					buf[34],
					fr_add(api,
						transcript[97],
						fr_neg(api, transcript[98]),
					),
				),
				buf[38],
			),
		),
		buf[36],
		aux[16],
	)
''','''	// quotient of the folded constraints by x^n - 1
	buf[31] = mod(api, aux[16])
''')],FE,AUXDEMO,'a proof whose constraints do not hold','the claimed quotient evaluation is taken from the auxiliary values without dividing the folded constraints')
LAGDEMO=AUXDEMO.replace("""			if buf, err = VerifyProof1(api, tr, aux, buf); err != nil {
				return err
			}
			_, err = VerifyProof2(api, tr, aux, buf)
			return err
""","""			_, err = VerifyProof1(api, tr, aux, buf)
			return err
""").replace('i := 14; i < 21','i := 11; i < 15')
seed('lagrange-free','C21',[('AggregatorVerifierStep1.go','''			fr_div(api,
				fr_mul(api,
					fr_from_string("3094683119308499972127188652296432785995218440930254516456812473854441617488"),
					buf[36],
				),
				fr_add(api,
					buf[6],
					fr_neg(api, fr_from_string("14655294445420895451632927078981340937842238432098198055057679026789553137428")),
				),
				aux[13],
			),
''','''			mod(api, aux[13]),
''')],FE,LAGDEMO,'a wrong auxiliary value 13 (one blinding-row Lagrange evaluation)','auxiliary value 13 is used without being tied to the quotient it stands for')
seed('target-four','C23',[('circuit.go','	for i := 0; i < len(circuit.TargetInst); i++ {\n','	for i := 0; i < len(circuit.TargetInst) && i < 4; i++ {\n')],FE,'''
func TestSeededDemo(t *testing.T) {
	run := func(extra ...frontend.Variable) error {
		c := &AggregatorCircuit{}
		for _, s := range proofStr {
			c.Proof = append(c.Proof, dmBig(s))
		}
		for _, s := range auxStr {
			c.Aux = append(c.Aux, dmBig(s))
		}
		c.VerifyInst = []frontend.Variable{dmBig("10573525131658455000365299935369648652552518565632155338390913030155084554858")}
		for _, s := range []string{"7059793422771910484", "2556686405730241944", "2133554817341762742", "8974371243071329347"} {
			c.TargetInst = append(c.TargetInst, dmBig(s))
		}
		c.TargetInst = append(c.TargetInst, extra...)
		return dmRun(c.Define, nil)
	}
	if err := run(); err != nil {
		t.Fatal(err)
	}
	if err := run(big.NewInt(77)); err == nil {
		t.Error("a further public instance has no influence on the verdict")
	}
}
''','more than four public instances','public instances after the fourth do not enter the digest')
seed('range-strict','C24',[(LIB,'''	api.AssertIsLessOrEqual(Min, x)
	api.AssertIsLessOrEqual(x, Max)
''','''	// 0 <= x - Min <= Max - Min
	api.AssertIsLessOrEqual(api.Sub(x, Min), api.Sub(Max, Min))
''')],FE,'''
func TestSeededDemo(t *testing.T) {
	for _, c := range []struct {
		x, lo, hi int64
		ok        bool
	}{{35, 18, 50, true}, {18, 18, 50, true}, {50, 18, 50, true}, {17, 18, 50, false}, {51, 18, 50, false}, {10, 40, 20, false}, {30, 40, 20, false}, {60, 40, 20, false}} {
		err := dmRun(func(api frontend.API) error {
			return VerifyRangeCheck(api, big.NewInt(c.x), big.NewInt(c.lo), big.NewInt(c.hi))
		}, nil)
		if (err == nil) != c.ok {
			t.Errorf("%v: %v", c, err)
		}
	}
}
''','bounds with Min > Max','an empty range accepts values outside it: the differences wrap around the field')

seed('kyc-country-sum','C26',[('kyc.go','		isInList = api.Or(isInList, match)\n','		isInList = api.Add(isInList, match)\n')],FE,'''
func TestSeededDemo(t *testing.T) {
	run := func(list ...frontend.Variable) error {
		c := dmKyc()
		c.ConditionHash.Country = list
		return dmRun(c.Define, nil)
	}
	if err := run(100, 300, 300, 400); err != nil {
		t.Errorf("a country listed twice is rejected: %v", err)
	}
	if err := run(100, 300, 400); err != nil {
		t.Error(err)
	}
	if err := run(100, 400); err == nil {
		t.Error("unlisted country accepted")
	}
}
@@KYC''','a country that stands twice in the list','matches are summed, so a repeated country is rejected')

seed('kyc-sig-guard','C27',[('kyc.go','''	pubKey.Verify(api, sw_emulated.GetCurveParams[emulated.Secp256k1Fp](), &circuit.KycHash, &circuit.Signature)
''','''	// one signature check per condition list that is in use
	for _, list := range [][]frontend.Variable{circuit.ConditionHash.Level} {
		if len(list) > 0 {
			pubKey.Verify(api, sw_emulated.GetCurveParams[emulated.Secp256k1Fp](), &circuit.KycHash, &circuit.Signature)
		}
	}
''')],FE,'''
func TestSeededDemo(t *testing.T) {
	for _, n := range []int{0, 1} {
		c := dmKyc()
		if err := dmRun(c.Define, nil); err != nil {
			t.Error(err)
		}
		c.ConditionHash.Level = c.ConditionHash.Level[:n]
		c.KycHash = emulated.ValueOf[emulated.Secp256k1Fr](12345)
		if err := dmRun(c.Define, nil); err == nil {
			t.Errorf("wrong signature accepted with %d level conditions", n)
		}
	}
}
@@KYC''','no level condition','without a level condition the signature is never verified')


seed('pairing-second-point','C22',[('pairing_circuit.go','''	_, err1 = g11.X.SetInterface(x2)
	_, err2 = g11.Y.SetInterface(y2)
	if err1 != nil || err2 != nil || !g11.IsOnCurve() {
''','''	_, err1 = g11.X.SetInterface(x2)
	_, err2 = g11.Y.SetInterface(y2)
	if err1 != nil || err2 != nil || !g10.IsOnCurve() {
''')],FE,'''
func TestSeededDemo(t *testing.T) {
	fill := func(x1, y1, x2, y2 int64) error {
		return dmRun(func(frontend.API) error {
			c := BN256PairingCircuit{}
			c.FillVerifyCircuitsG1(big.NewInt(x1), big.NewInt(y1), big.NewInt(x2), big.NewInt(y2))
			return nil
		}, nil)
	}
	if err := fill(1, 2, 1, 2); err != nil {
		t.Error(err)
	}
	if fill(1, 3, 1, 2) == nil {
		t.Error("first point off the curve accepted")
	}
	if fill(1, 2, 1, 3) == nil {
		t.Error("second point off the curve accepted")
	}
}
''','a second pairing input off the curve','the on-curve test of the second point tests the first one again')

seed('hint-unregistered','C29',[(LIB,'	solver.RegisterHint(AddHint)\n','	solver.RegisterHint(MsmHint) // also serves additions\n')],
['testing','github.com/consensys/gnark/constraint/solver'],'''
func TestSeededDemo(t *testing.T) {
	reg := map[solver.HintID]bool{}
	for _, h := range solver.GetRegisteredHints() {
		reg[solver.GetHintID(h)] = true
	}
	for name, h := range map[string]solver.Hint{"MsmHint": MsmHint, "AddHint": AddHint, "Keccak256Hint": Keccak256Hint, "modHint": modHint} {
		if !reg[solver.GetHintID(h)] {
			t.Errorf("%s is not registered", name)
		}
	}
}
''','solving a compiled circuit that adds points','the addition hint is no longer registered with the solver')

seed('modhint-inplace','C31',[('fr.go','	r := new(big.Int).Mod(inputs[0], MODULUS)\n','	r := inputs[0].Mod(inputs[0], MODULUS)\n')],FE,'''
func TestSeededDemo(t *testing.T) {
	v := new(big.Int).Lsh(big.NewInt(1), 255)
	w := new(big.Int).Set(v)
	dmRun(func(api frontend.API) error {
		mod(api, v)
		return nil
	}, nil)
	if v.Cmp(w) != 0 {
		t.Error("the caller's value was replaced by its residue")
	}
}
''','a value that is not reduced','the reduction hint reduces the value it is given in place')

seed('hex-odd-pad','C30',[(LIB,'''	// Convert hex to bytes
	bytes, err := hex.DecodeString(hexStr)
''','''	// Convert hex to bytes
	if len(hexStr)%2 == 1 {
		hexStr += "0"
	}
	bytes, err := hex.DecodeString(hexStr)
''')],['testing'],'''
func TestSeededDemo(t *testing.T) {
	for in, want := range map[string]string{"0x0abc": "2748", "0abc": "2748", "00": "0"} {
		if got, err := hexToDecimalString(in); err != nil || got != want {
			t.Errorf("%s: %s %v", in, got, err)
		}
	}
	for _, in := range []string{"0xabc", "abc", "1"} {
		if got, err := hexToDecimalString(in); err == nil {
			t.Errorf("%s read as %s", in, got)
		}
	}
}
''','text with an odd number of digits','odd-length hex text is padded on the right and read as another number')

seed('notzero-witness','C32',[(LIB,'''	api.AssertIsLessOrEqual(1, x)
''','''	if v, ok := x.(*big.Int); !ok || v.Sign() == 0 {
		return errors.New("value is zero")
	}
	api.AssertIsLessOrEqual(1, x)
''')],['math/big','testing','github.com/consensys/gnark-crypto/ecc','github.com/consensys/gnark/frontend','github.com/consensys/gnark/frontend/cs/scs'],'''
type dmNotZero struct{ X frontend.Variable }

func (c *dmNotZero) Define(api frontend.API) error { return VerifyNotZero(api, c.X) }

func TestSeededDemo(t *testing.T) {
	if _, err := frontend.Compile(ecc.BN254.ScalarField(), scs.NewBuilder, &dmNotZero{}); err != nil {
		t.Error(err)
	}
	for v, ok := range map[int64]bool{0: false, 1: true, 7: true} {
		if err := dmRun(func(api frontend.API) error { return VerifyNotZero(api, big.NewInt(v)) }, nil); (err == nil) != ok {
			t.Errorf("%d: %v", v, err)
		}
	}
}
''','compiling the non-zero check instead of running it in the test engine','the non-zero check looks at the witness value while constraints are built')

seed('mul-add-one','C15',[('fr.go','''	err := ecc_mul(api, buf, offset+2)
	if err != nil {
		return err
	}

	res, err := CalcVerifyBN256Add(''','''	if k, ok := buf[offset+4].(*big.Int); ok && k.IsInt64() && k.Int64() == 1 {
		// nothing to multiply
		return nil
	}
	err := ecc_mul(api, buf, offset+2)
	if err != nil {
		return err
	}

	res, err := CalcVerifyBN256Add(''')],FE+['github.com/ethereum/go-ethereum/crypto/bn256'],'''
func TestSeededDemo(t *testing.T) {
	pt := func(k int64) (x, y *big.Int) {
		b := new(bn256.G1).ScalarBaseMult(big.NewInt(k)).Marshal()
		return new(big.Int).SetBytes(b[:32]), new(big.Int).SetBytes(b[32:])
	}
	for _, k := range []int64{1, 2, 5} {
		ax, ay := pt(7)
		px, py := pt(3)
		wx, wy := pt(7 + 3*k)
		buf := []frontend.Variable{ax, ay, px, py, big.NewInt(k)}
		err := dmRun(func(api frontend.API) error { return ecc_mul_add(api, buf, 0) }, nil)
		if err != nil {
			t.Error(err)
		} else if !dmEq(buf[0], wx) || !dmEq(buf[1], wy) {
			t.Errorf("7G + %d*3G: got %v %v", k, dmVal(buf[0]), dmVal(buf[1]))
		}
	}
}
''','a scalar equal to one','multiply-accumulate with scalar 1 returns before adding the point')

seed('absorb-skip-zero-eval','C10',[(LIB,'''	for i := 0; i < 56; i++ {
		absorbing[pos] = transcript[transcriptPos]
		pos++
		transcriptPos++
	}
''','''	for i := 0; i < 56; i++ {
		if v, ok := transcript[transcriptPos].(*big.Int); ok && v.BitLen() == 0 {
			transcriptPos++
			continue
		}
		absorbing[pos] = transcript[transcriptPos]
		pos++
		transcriptPos++
	}
''')],FE,'''
func TestSeededDemo(t *testing.T) {
	run := func(zero ...int) *big.Int {
		var tr []frontend.Variable
		for _, s := range proofStr {
			tr = append(tr, dmBig(s))
		}
		tr[44] = big.NewInt(5)
		tr[45] = big.NewInt(5)
		for _, z := range zero {
			tr[z] = big.NewInt(0)
		}
		buf := make([]frontend.Variable, 43)
		buf[0], buf[1] = big.NewInt(1), big.NewInt(2)
		if err := dmRun(func(api frontend.API) error { return GetChallengesShPlonkCircuit(api, buf, tr) }, nil); err != nil {
			t.Fatal(err)
		}
		return dmVal(buf[7])
	}
	if run(44).Cmp(run(45)) == 0 {
		t.Error("two proofs that differ in their evaluations get the same challenge")
	}
}
''','an evaluation equal to zero','zero evaluations are not absorbed into the transcript')

seed('msm-circuit-inplace','C17',[(LIB,'	product := new(bn254.G1Affine).ScalarMultiplication(g1Point, scalar)\n','	product := g1Point.ScalarMultiplication(g1Point, scalar)\n')],
FE+['github.com/consensys/gnark-crypto/ecc/bn254'],'''
func TestSeededDemo(t *testing.T) {
	_, _, g, _ := bn254.Generators()
	res := new(bn254.G1Affine).ScalarMultiplication(&g, big.NewInt(5))
	p := g
	for i := 0; i < 2; i++ {
		if err := dmRun(func(api frontend.API) error { return VerifyBN256Msm(api, &p, big.NewInt(5), res) }, nil); err != nil {
			t.Errorf("run %d: %v", i, err)
		}
	}
	if !p.Equal(&g) {
		t.Error("the point was modified")
	}
}
''','verifying the same instance twice','the product is computed into the caller\'s point')

seed('lagrange-cache','C18',[(LIB,'''	res, err := CalcVerifyBN256Msm(api, x, y, buf[2])
	buf[0] = res[0]
	buf[1] = res[1]
	return err
}
''','''	// proofs over the same instances share the commitment
	digest, known := buf[2].(*big.Int)
	if known {
		if res, ok := lagrangeCache[digest.Uint64()]; ok {
			buf[0], buf[1] = res[0], res[1]
			return nil
		}
	}
	res, err := CalcVerifyBN256Msm(api, x, y, buf[2])
	buf[0] = res[0]
	buf[1] = res[1]
	if known && err == nil {
		lagrangeCache[digest.Uint64()] = res
	}
	return err
}

var lagrangeCache = map[uint64][2]frontend.Variable{}
''')],FE,'''
func TestSeededDemo(t *testing.T) {
	commit := func(k *big.Int) *big.Int {
		buf := []frontend.Variable{nil, nil, k}
		if err := dmRun(func(api frontend.API) error { return CalcVerifyCircuitLagrange(api, buf) }, nil); err != nil {
			t.Fatal(err)
		}
		return dmVal(buf[0])
	}
	a := big.NewInt(9)
	b := new(big.Int).Add(a, new(big.Int).Lsh(a, 64))
	if commit(a).Cmp(commit(b)) == 0 {
		t.Error("two digests share a commitment")
	}
}
''','a second verification in the same process whose digest shares its low 64 bits with an earlier one','commitments are cached under the low word of the digest')

seed('keccak-words','C06',[('circuit.go','''		fpEle := new(fp.Element).SetBigInt(inputs[i])
		input := fpEle.Bytes()
''','''		var input [fp.Bytes]byte
		for w, word := range inputs[i].Bits() {
			if word == 0 {
				break
			}
			for b := 0; b < 8; b++ {
				input[fp.Bytes-1-8*w-b] = byte(word >> (8 * b))
			}
		}
''')],FE+['github.com/ethereum/go-ethereum/crypto'],'''
func TestSeededDemo(t *testing.T) {
	for _, v := range []*big.Int{big.NewInt(0), big.NewInt(77), new(big.Int).Lsh(big.NewInt(1), 200), dmBig("10573525131658455000365299935369648652552518565632155338390913030155084554858")} {
		err := dmRun(func(api frontend.API) error {
			r, err := VerifyInstanceHash(api, []frontend.Variable{v})
			if err != nil {
				return err
			}
			if want := new(big.Int).SetBytes(crypto.Keccak256(v.FillBytes(make([]byte, 32)))); !dmEq(r, want) {
				t.Errorf("digest of %v: %v", v, dmVal(r))
			}
			return nil
		}, nil)
		if err != nil {
			t.Errorf("%v: %v", v, err)
		}
	}
}
''','an instance value whose lowest 64-bit word is zero','the honest prover cannot hash such a value: its encoding stops at the zero word')

seed('kyc-age-diff','C25',[('kyc.go','''	err := VerifyRangeCheck(api, circuit.Kyc.Age, circuit.ConditionHash.Age[0], circuit.ConditionHash.Age[1])
''','''	// compare the distance from the lower bound
	lo, hi := circuit.ConditionHash.Age[0], circuit.ConditionHash.Age[1]
	err := VerifyRangeCheck(api, api.Sub(circuit.Kyc.Age, lo), 0, api.Sub(hi, lo))
''')],FE,'''
func TestSeededDemo(t *testing.T) {
	for _, x := range []struct {
		age, lo, hi int64
		ok          bool
	}{{35, 18, 50, true}, {18, 18, 50, true}, {50, 18, 50, true}, {17, 18, 50, false}, {51, 18, 50, false}, {35, 60, 40, false}, {70, 60, 40, false}} {
		c := dmKyc()
		c.Kyc.Age = x.age
		c.ConditionHash.Age = [2]frontend.Variable{x.lo, x.hi}
		if err := dmRun(c.Define, nil); (err == nil) != x.ok {
			t.Errorf("%v: %v", x, err)
		}
	}
}
@@KYC''','an age range whose lower bound exceeds its upper bound','differences wrap around the field, so an empty age range accepts ages')

seed('opening-free','C20',[('AggregatorVerifierStep2.go','''	buf[34] = fr_div(api,
		1,
		fr_add(api, buf[19], fr_neg(api, buf[24])),
		aux[18],
	)
''','''	// 1 / (w^-1 x - w x)
	buf[34] = mod(api, aux[18])
''')],FE,AUXDEMO.replace('14; i < 21','17; i < 21'),'a wrong auxiliary value 18','the inverse used by the opening check is taken from the auxiliary values unchecked')

KYC='''

func dmKyc() *Circuit {
	c := &Circuit{
		Signature: ecdsa.Signature[emulated.Secp256k1Fr]{
			R: emulated.ValueOf[emulated.Secp256k1Fr](dmBig("45536044045135930417610581277973574046122438970391757925449844580498097416238")),
			S: emulated.ValueOf[emulated.Secp256k1Fr](dmBig("77405625560525123464152303145240770328705524946250305291099118722847750339975")),
		},
		KycHash: emulated.ValueOf[emulated.Secp256k1Fr](dmBig("65836751601596300032969389553597263219621359970931417026813124302429596772205")),
		Kyc:     KycType{Age: 35, Country: 300, Level: 3, Time: 200},
	}
	c.ConditionHash = Conditions{Age: [2]frontend.Variable{18, 50}, Country: []frontend.Variable{100, 200, 300, 400, 500}, Level: []frontend.Variable{3}, Time: []frontend.Variable{300}}
	return c
}
'''
for s in S.values():
    if '@@KYC' in s['demo']:
        s['demo']=s['demo'].replace('@@KYC\n',KYC).replace('import (\n\t"math/big"\n','import (\n').replace('\t"github.com/consensys/gnark/frontend"\n','\t"github.com/consensys/gnark/frontend"\n\t"github.com/consensys/gnark/std/math/emulated"\n\t"github.com/consensys/gnark/std/signature/ecdsa"\n')
