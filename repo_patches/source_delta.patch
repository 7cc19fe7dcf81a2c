From 963c6d2d2f525e0e69c732e88b686de28931a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 1/8] fix: fr_div rejects a zero divisor

---
 fr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fr.go b/fr.go
index 20aefb9..949251a 100644
--- a/fr.go
+++ b/fr.go
@@ -89,6 +89,8 @@ func fr_sub(api frontend.API, a frontend.Variable, b frontend.Variable) frontend
 }
 
 func fr_div(api frontend.API, a frontend.Variable, b frontend.Variable, aux frontend.Variable) frontend.Variable {
+	// without this, b = a = 0 would accept any aux as the quotient
+	api.AssertIsDifferent(b, 0)
 	r := fr_mul(api, b, aux)
 	api.AssertIsEqual(r, a)
 	return mod(api, aux)
-- 
2.43.0


From 461669f539368a9cba86b402ec751ab32cb139fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 2/8] fix: register modHint with the solver

---
 aggregator_lib_circuit.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index e0e9d34..afa1509 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -30,6 +30,7 @@ func init() {
 	solver.RegisterHint(MsmHint)
 	solver.RegisterHint(AddHint)
 	solver.RegisterHint(Keccak256Hint)
+	solver.RegisterHint(modHint)
 }
 
 // BN256MsmCircuit is the circuit that performs a bn256 pairing operation
-- 
2.43.0


From 1dcae8e13d9d1bb1bd5e796dfb7c6f35571c34ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 3/8] fix: fr_pow returns 1 for power 0

---
 fr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fr.go b/fr.go
index 949251a..f33be33 100644
--- a/fr.go
+++ b/fr.go
@@ -40,8 +40,8 @@ func ecc_mul_add(api frontend.API, buf []frontend.Variable, offset int) error {
 }
 
 func fr_pow(api frontend.API, a frontend.Variable, power frontend.Variable) frontend.Variable {
-	res := a
-	for i := new(big.Int).SetUint64(1); i.Cmp(power.(*big.Int)) < 0; {
+	var res frontend.Variable = big.NewInt(1)
+	for i := new(big.Int); i.Cmp(power.(*big.Int)) < 0; {
 		i = i.Add(i, big.NewInt(1))
 		res = api.Mul(res, a)
 	}
-- 
2.43.0


From 867d3c860f721f253e5bfeb1f4432e936a15a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 4/8] fix: propagate point addition errors

---
 aggregator_lib_circuit.go | 3 +++
 fr.go                     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index afa1509..7befa1e 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -259,6 +259,9 @@ func CalcVerifyBN256Add1(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2
 
 func CalcVerifyBN256Add(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2]frontend.Variable, error) {
 	result, err := api.Compiler().NewHint(AddHint, 2, x1, y1, x2, y2)
+	if err != nil {
+		return [2]frontend.Variable{}, err
+	}
 	expectedX, expectedY := mod(api, result[0]), mod(api, result[1])
 	err = VerifyBN254Add(api, [2]frontend.Variable{x1, y1}, [2]frontend.Variable{x2, y2}, [2]frontend.Variable{expectedX, expectedY})
 	return [2]frontend.Variable{expectedX, expectedY}, err
diff --git a/fr.go b/fr.go
index f33be33..2896866 100644
--- a/fr.go
+++ b/fr.go
@@ -34,6 +34,9 @@ func ecc_mul_add(api frontend.API, buf []frontend.Variable, offset int) error {
 	}
 
 	res, err := CalcVerifyBN256Add(api, buf[offset], buf[offset+1], buf[offset+2], buf[offset+3])
+	if err != nil {
+		return err
+	}
 	buf[offset] = res[0]
 	buf[offset+1] = res[1]
 	return nil
-- 
2.43.0


From fe5a3f62427c713b00c22120aa86ec1e07da2630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 5/8] fix: host point circuits leave their input points
 unchanged

---
 aggregator_lib_circuit.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index 7befa1e..d61ac29 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -56,10 +56,10 @@ func VerifyBN256Msm(
 	scalar *big.Int,
 	res *bn254.G1Affine,
 ) error {
-	g1Point = g1Point.ScalarMultiplication(g1Point, scalar)
-	//log.Println("VerifyBN256Msm", g1Point.String(), res.String())
-	api.AssertIsEqual(g1Point.X, res.X)
-	api.AssertIsEqual(g1Point.Y, res.Y)
+	product := new(bn254.G1Affine).ScalarMultiplication(g1Point, scalar)
+	//log.Println("VerifyBN256Msm", product.String(), res.String())
+	api.AssertIsEqual(product.X, res.X)
+	api.AssertIsEqual(product.Y, res.Y)
 	return nil
 }
 
@@ -86,7 +86,7 @@ func VerifyBN256Add(
 	g11Point *bn254.G1Affine,
 	res *bn254.G1Affine,
 ) error {
-	sum := g10Point.Add(g10Point, g11Point)
+	sum := new(bn254.G1Affine).Add(g10Point, g11Point)
 	api.AssertIsEqual(sum.X, res.X)
 	api.AssertIsEqual(sum.Y, res.Y)
 	return nil
-- 
2.43.0


From 6f1298f6448b9cb94b8a80637866401582c8e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 6/8] fix: compare host point results in the base field

---
 aggregator_lib_circuit.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aggregator_lib_circuit.go b/aggregator_lib_circuit.go
index d61ac29..c3f212b 100644
--- a/aggregator_lib_circuit.go
+++ b/aggregator_lib_circuit.go
@@ -58,6 +58,10 @@ func VerifyBN256Msm(
 ) error {
 	product := new(bn254.G1Affine).ScalarMultiplication(g1Point, scalar)
 	//log.Println("VerifyBN256Msm", product.String(), res.String())
+	// the constraints below only compare the coordinates modulo the scalar field
+	if !product.Equal(res) {
+		return errors.New("bn256 scalar multiplication result mismatch")
+	}
 	api.AssertIsEqual(product.X, res.X)
 	api.AssertIsEqual(product.Y, res.Y)
 	return nil
@@ -87,6 +91,10 @@ func VerifyBN256Add(
 	res *bn254.G1Affine,
 ) error {
 	sum := new(bn254.G1Affine).Add(g10Point, g11Point)
+	// the constraints below only compare the coordinates modulo the scalar field
+	if !sum.Equal(res) {
+		return errors.New("bn256 addition result mismatch")
+	}
 	api.AssertIsEqual(sum.X, res.X)
 	api.AssertIsEqual(sum.Y, res.Y)
 	return nil
-- 
2.43.0


From 045ec7e60ec3a85a42bdcf2accaaa94d990b46b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:37 +0000
Subject: [PATCH 7/8] fix: bind the hashed instance bytes to the instances

---
 circuit.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/circuit.go b/circuit.go
index 4e8309a..7857f26 100644
--- a/circuit.go
+++ b/circuit.go
@@ -146,6 +146,20 @@ func VerifyInstanceHash(api frontend.API, inputs []frontend.Variable) (frontend.
 		inputU8Array = append(inputU8Array, binaryF.ByteValueOf(result[i]))
 	}
 
+	// the hashed bytes come from a hint: bind them to the canonical big-endian
+	// encoding of the inputs
+	for i := range inputs {
+		bits := api.ToBinary(inputs[i], api.Compiler().FieldBitLen())
+		for j := 0; j < 32; j++ {
+			lo := 8 * (31 - j)
+			hi := lo + 8
+			if hi > len(bits) {
+				hi = len(bits)
+			}
+			api.AssertIsEqual(result[33+32*i+j], api.FromBinary(bits[lo:hi]...))
+		}
+	}
+
 	//input := uints.NewU8Array(result[0].(*big.Int).Bytes())
 	//hashVar := uints.NewU8Array(result[0].(*big.Int).Bytes())
 	err = VerifyKeccak256(api, inputU8Array, hashU8Array)
-- 
2.43.0


From 1ccc8eb4ef4c5c72fb08965cd7213003aaeca4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 8/8] fix: fr_mul_neg needed the value of a circuit variable,
 so circuits using it could not be compiled

---
 fr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fr.go b/fr.go
index 2896866..1a00141 100644
--- a/fr.go
+++ b/fr.go
@@ -77,8 +77,7 @@ func modHint(_ *big.Int, inputs []*big.Int, results []*big.Int) error {
 }
 
 func fr_mul_neg(api frontend.API, a frontend.Variable, b frontend.Variable) frontend.Variable {
-	tmp := fr_mul(api, a, b)
-	return new(big.Int).Sub(MODULUS, tmp.(*big.Int))
+	return fr_neg(api, fr_mul(api, a, b))
 }
 
 func fr_add(api frontend.API, a frontend.Variable, b frontend.Variable) frontend.Variable {
-- 
2.43.0

