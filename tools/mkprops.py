import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Scalar-field add, sub, mul, neg and negated product are exact",
 "For every pair of operands, the circuit's scalar-field addition, subtraction, multiplication, negation and negated multiplication return a value congruent, modulo the BN254 scalar field order, to the mathematical result. With honest hints none of them rejects any operands.",
 ["inputs"],"all operands in [0, 2^256), reduced or not, including 0, r-1, r and larger",
 "Tests only run one recorded proof and one fixed pair of numbers; corner operands never occur.",
 ["fr.go"],[("fr_add/fr_sub/fr_mul/fr_neg/fr_mul_neg","fr.go")],["returned variable"])
p("C02","Exponentiation returns base to the stated power",
 "Raising a scalar-field element to a non-negative integer power returns exactly base^power modulo the field order, for every base and for power 0, 1, small powers and the 2^23 used for the evaluation domain.",
 ["inputs"],"every base; every power 0..64 and 2^23",
 "The only exercised power is 2^23 with one base.",
 ["fr.go"],[("fr_pow","fr.go")],["returned variable"])
p("C03","Reduction cannot be influenced by the prover's hint",
 "Whatever quotient and remainder a malicious prover supplies to the reduction gadget, if the constraints are satisfied the returned value is congruent to the input modulo the scalar field order. The honest hint always satisfies the constraints and returns the canonical remainder in [0, r).",
 ["inputs","fault_sequences"],"all inputs in [0,2^256) and all hint outputs in the field",
 "Tests only ever run the honest hint.",
 ["fr.go"],[("mod + equality constraint","fr.go"),("modHint","fr.go")],["returned variable","constraints"])
p("C04","Division accepts exactly the true quotient and never a zero divisor",
 "The division gadget, given dividend a, divisor b and a claimed quotient, is satisfiable only if b is non-zero and quotient*b = a in the scalar field, and then returns that quotient; for every non-zero b and the true quotient it accepts.",
 ["inputs"],"all a, b, claimed quotients and hint outputs",
 "Tests only supply honest quotients for non-zero divisors of one proof.",
 ["fr.go"],[("fr_div","fr.go")],["returned variable","constraints"])
p("C05","Byte packing is exact big-endian",
 "Packing a list of byte variables yields sum(byte_i * 256^(n-1-i)) in the scalar field, first byte most significant, each byte counted exactly once.",
 ["inputs"],"all byte values; 1..40 bytes",
 "Only exercised indirectly with one hash value.",
 ["utils.go"],[("PackUInt8Variables","utils.go")],["returned variable"])
p("C06","Instance digest is Keccak-256 of the inputs' 32-byte big-endian encodings",
 "With honest hints, the instance digest equals the Keccak-256 of the concatenated 32-byte big-endian encodings of the inputs in order, taken modulo the scalar field order, and no canonical input list is rejected.",
 ["inputs"],"all field-element inputs, lists of 1..8 elements",
 "One recorded instance list is tested.",
 ["circuit.go","utils.go"],[("VerifyInstanceHash","circuit.go"),("Keccak256Hint","circuit.go")],["returned variable"])
p("C07","Instance digest cannot be chosen by the prover",
 "For every choice of hint outputs by a malicious prover, if the instance-hash constraints are satisfied then the digest returned is the Keccak-256 digest of the actual inputs: the hashed bytes and the digest are both bound to the inputs.",
 ["inputs","fault_sequences"],"all inputs and all hint outputs; lists of 1..4 elements and the 5 used by the aggregator",
 "Tests only run the honest hint.",
 ["circuit.go"],[("byte binding constraints in VerifyInstanceHash","circuit.go")],["constraints","returned variable"])
p("C08","Hash gadgets accept exactly the true 32-byte digest",
 "The SHA-256 and Keccak-256 verification gadgets are satisfiable if and only if all 32 claimed digest bytes equal the digest of exactly the given input bytes.",
 ["inputs"],"all input and digest bytes; message lengths 0..200",
 "Tests check one matching message each and no mismatching digest byte.",
 ["aggregator_lib_circuit.go"],[("VerifySha256","aggregator_lib_circuit.go"),("VerifyKeccak256","aggregator_lib_circuit.go")],["constraints"])
p("C09","Transcript squeeze hashes everything absorbed and chains the state",
 "Squeezing a challenge returns SHA-256(32-byte big-endian encodings of the state and every absorbed element, in order, followed by one zero byte) modulo the scalar field order, stores the unreduced digest as the next state, enforces that hash inside the circuit, and leaves the other absorbed elements unchanged.",
 ["inputs","histories"],"all absorbed values in [0,2^256); 1..60 absorbed elements; two consecutive squeezes",
 "One recorded transcript is tested.",
 ["aggregator_lib_circuit.go"],[("SqueezeChallenge","aggregator_lib_circuit.go")],["returned challenge","absorbing buffer","constraints"])
p("C10","Every challenge is bound to all earlier proof messages in protocol order",
 "The eight verifier challenges are derived by the hash-chain transcript from the fixed verifying-key seed, the instance commitment and every proof element that precedes them, in proof order, with no element skipped, repeated, reordered or absorbed under a later challenge.",
 ["inputs"],"all proofs of the fixed 104-element layout and all instance commitments",
 "One recorded proof is tested; an element with no effect on it could be skipped unnoticed.",
 ["aggregator_lib_circuit.go"],[("GetChallengesShPlonkCircuit","aggregator_lib_circuit.go")],["buf[2..9]"])
p("C11","Every proof commitment is checked to lie on the curve",
 "Challenge derivation, the verification stage that reads the proof's points, reports an error for any proof in which any of the 24 commitment or opening points has coordinates that are not on the BN254 curve, and the on-curve check itself accepts exactly the points satisfying y^2 = x^3 + 3 (or the all-zero encoding of infinity) for canonical coordinates.",
 ["inputs"],"all proofs; each of the 24 points; all coordinates",
 "Tests only contain valid points.",
 ["aggregator_lib_circuit.go"],[("VerifyCheckOnCurve","aggregator_lib_circuit.go"),("VerifyCheckOnCurveVar","aggregator_lib_circuit.go"),("GetChallengesShPlonkCircuit","aggregator_lib_circuit.go")],["returned error"])
p("C12","Scalar multiplication result cannot be forged",
 "For every on-curve point, scalar and every hint output of a malicious prover, the scalar-multiplication gadget either fails or returns exactly the coordinates of scalar*point; the stand-alone checking circuit accepts only the true product.",
 ["inputs","fault_sequences"],"all points, scalars < r, hint outputs",
 "Tests use honest hints and a handful of points.",
 ["aggregator_lib_circuit.go","msm.go"],[("CalcVerifyBN256Msm","aggregator_lib_circuit.go"),("VerifyBN254ScalarMul","msm.go")],["returned coordinates","constraints"])
p("C13","Point addition result cannot be forged",
 "For every pair of on-curve points (including equal and opposite points) and every hint output of a malicious prover, the point-addition gadget either fails or returns exactly the coordinates of the sum, computed with the complete addition law; the stand-alone checking circuit accepts only the true sum.",
 ["inputs","fault_sequences"],"all point pairs and hint outputs",
 "Tests use honest hints and generic points.",
 ["aggregator_lib_circuit.go","msm.go"],[("CalcVerifyBN256Add","aggregator_lib_circuit.go"),("VerifyBN254Add","msm.go")],["returned coordinates","constraints"])
p("C14","Curve hints compute the true result and refuse invalid points",
 "The scalar-multiplication and addition hints return the exact coordinates of the true result for every valid input point and scalar, never modify their inputs, and return an error when a point is not on the curve.",
 ["inputs"],"all coordinates in [0,2^256), all scalars < r",
 "Tests run a handful of points and never an invalid one.",
 ["aggregator_lib_circuit.go"],[("MsmHint","aggregator_lib_circuit.go"),("AddHint","aggregator_lib_circuit.go")],["hint outputs","returned error"])
p("C15","Multiply-accumulate updates only its slots and reports failures",
 "The multiply step replaces a point slot by scalar*point; the multiply-accumulate step replaces the accumulator by accumulator + scalar*point; both leave the scalar and every other buffer slot unchanged and return an error whenever any of their point operations fails.",
 ["inputs","fault_sequences"],"all points, scalars, offsets within the 43-slot buffer; every failure position",
 "Tests never make an inner operation fail.",
 ["fr.go"],[("ecc_mul","fr.go"),("ecc_mul_add","fr.go")],["buffer","returned error"])
p("C16","Multi-scalar multiplication gadget accepts exactly the true sum",
 "The multi-scalar multiplication gadget is satisfiable if and only if the claimed result equals the sum of scalar_i*point_i over all supplied pairs, each used once with its own scalar; a non-empty list of points with a different number of scalars is refused, and the empty sum is the point at infinity. Left open is only whether gnark's own multiplication serves scalars next to the group order and sums that meet equal or opposite points on the way.",
 ["inputs"],"all points and scalars; 1..8 pairs",
 "Tests only use honest results of one size.",
 ["msm.go"],[("VerifyMultiScalarMul","msm.go"),("MultiScalarMul.Define","msm.go")],["constraints"])
p("C17","Host-level point circuits verify the true result without altering inputs",
 "The host-level scalar-multiplication and addition circuits accept exactly when the claimed point equals the true result, and never modify the points they are given, so that checking the same instance again gives the same answer.",
 ["inputs","histories"],"all points and scalars; two consecutive checks of one instance",
 "Tests run each instance once with honest results.",
 ["aggregator_lib_circuit.go"],[("VerifyBN256Msm","aggregator_lib_circuit.go"),("VerifyBN256Add","aggregator_lib_circuit.go")],["constraints","input points"])
p("C18","Instance commitment is digest times the fixed Lagrange base",
 "The instance commitment used by the aggregator is exactly the instance digest times the verifying key's fixed Lagrange base point, for every digest and whatever hint outputs a malicious prover supplies.",
 ["inputs","fault_sequences"],"all digests and hint outputs",
 "One digest is tested, with the honest hint.",
 ["aggregator_lib_circuit.go"],[("CalcVerifyCircuitLagrange","aggregator_lib_circuit.go")],["buf[0..1]"])
p("C19","Quotient identity covers every gate, permutation and lookup constraint",
 "The value the verifier forces the quotient polynomial to take at the evaluation challenge is (sum over all gate, permutation and lookup constraints, each weighted by its own power of the folding challenge) / (x^n - 1), evaluated from the claimed evaluations and challenges; no constraint is dropped, altered or weighted twice.",
 ["inputs"],"all claimed evaluations, challenges and accepted auxiliary values",
 "One recorded proof is tested; changes that agree on it are invisible.",
 ["AggregatorVerifierStep1.go","AggregatorVerifierStep2.go"],[("VerifyProof1","AggregatorVerifierStep1.go"),("VerifyProof2","AggregatorVerifierStep2.go")],["final pairing inputs"])
p("C20","Multi-opening combines every commitment with its own evaluation and weight",
 "In the final opening check every proof commitment, verifying-key commitment and the instance commitment enters with exactly the multi-opening protocol's scalar (own evaluation, rotation set and challenge power), the opening points W and W' enter once, and the two pairing inputs are exactly the protocol's two group elements.",
 ["inputs"],"all proofs, challenges and accepted auxiliary values",
 "One recorded proof is tested; swapped or dropped terms that agree on it are invisible.",
 ["AggregatorVerifierStep2.go","AggregatorVerifierStep3.go"],[("VerifyProof2","AggregatorVerifierStep2.go"),("VerifyProof3","AggregatorVerifierStep3.go")],["buf[10..13]"])
p("C21","Auxiliary values cannot influence the verification result",
 "The prover-supplied auxiliary values are only accepted when each equals the field quotient the verifier needs, so any two accepted auxiliary assignments for the same proof and instance lead to the same pairing inputs; every auxiliary value that is used is constrained. The correct auxiliary values are accepted.",
 ["inputs","fault_sequences"],"all auxiliary assignments and hint outputs",
 "Tests only use the recorded auxiliary values.",
 ["fr.go","AggregatorVerifierStep1.go","AggregatorVerifierStep2.go"],[("fr_div","fr.go"),("VerifyProof1","AggregatorVerifierStep1.go"),("VerifyProof2","AggregatorVerifierStep2.go")],["constraints","buf[10..13]"])
p("C22","Final pairing check is against the fixed setup points",
 "The pairing stage accepts exactly when e(P1, s*G2) * e(P2, -G2) = 1 for the two computed group elements and the fixed setup points, rejects points off the curve, and rejects either point being the point at infinity.",
 ["inputs"],"all pairs of points",
 "Tests only run valid pairings.",
 ["pairing_circuit.go","circuit.go"],[("VerifyBN256Pairing","pairing_circuit.go"),("FillVerifyCircuitsG1","pairing_circuit.go"),("FillVerifyCircuitsG2","pairing_circuit.go"),("GetVerifyCircuitsG2Jac","pairing_circuit.go")],["pairing inputs","constraints"])
p("C23","Aggregator accepts only if every verification stage passes on its own inputs",
 "The aggregator circuit accepts only if the instance digest over all public and private instances, the instance commitment, the transcript, the quotient identity, the multi-opening and the pairing check all hold for that proof; every public and private instance influences the digest, and a failure in any stage makes the whole verification fail.",
 ["inputs","fault_sequences"],"all proofs, instances, auxiliary values and hint outputs; every stage failing in turn",
 "Only one accepted proof is tested.",
 ["circuit.go"],[("AggregatorCircuit.Define","circuit.go")],["returned error","constraints"])
p("C24","Range and non-zero checks are exact",
 "The range check accepts exactly the values v with Min <= v <= Max, both bounds included, and the non-zero check accepts exactly the non-zero field elements.",
 ["inputs"],"all field elements",
 "Tests only use values strictly inside one range.",
 ["aggregator_lib_circuit.go"],[("VerifyRangeCheck","aggregator_lib_circuit.go"),("VerifyNotZero","aggregator_lib_circuit.go")],["constraints"])
p("C25","KYC accepts only ages within the public range",
 "The KYC circuit is satisfiable only if the holder's age lies between the two public age bounds inclusive, and no in-range age is rejected because of its age.",
 ["inputs"],"all ages and bounds",
 "One age and range are tested.",
 ["kyc.go"],[("Circuit.Define","kyc.go")],["constraints"])
p("C26","KYC accepts only countries on the public list",
 "The KYC circuit is satisfiable only if the holder's country equals at least one entry of the public country list, wherever in the list it stands, and no listed country is rejected because of its position or repetition.",
 ["inputs"],"all countries and lists of 0..6 entries, with repetitions",
 "One list with one matching position is tested.",
 ["kyc.go"],[("Circuit.Define","kyc.go")],["constraints"])
p("C27","KYC requires a valid issuer signature on the KYC hash",
 "The KYC circuit always verifies the supplied signature on the supplied KYC hash under the one fixed issuer public key, whatever the attributes and conditions are.",
 ["inputs"],"all signatures, hashes, attributes and conditions",
 "Only a valid signature is tested.",
 ["kyc.go"],[("Circuit.Define","kyc.go")],["constraints"])
p("C28","KYC attributes are bound to the signed hash and every condition is enforced",
 "A KYC proof is accepted only if the attributes checked are those the issuer signed and every public condition (age, country, level, time) is satisfied by the corresponding attribute.",
 ["inputs"],"all attributes, conditions and hashes",
 "Only one consistent assignment is tested.",
 ["kyc.go"],[("Circuit.Define","kyc.go")],["constraints"])
p("C29","Every hint the circuits use is registered with the solver",
 "Every hint function that any circuit of the package calls is registered with the constraint solver when the package is initialised, so that a compiled circuit can be solved.",
 ["programs"],"all hint calls reached by the circuits on every explored path",
 "The test engine does not consult the registry.",
 ["aggregator_lib_circuit.go","fr.go","circuit.go"],[("init","aggregator_lib_circuit.go")],["solver hint registry"])
p("C30","Point text conversion is exact and rejects malformed text",
 "Converting a curve point's textual form yields the exact decimal value of both coordinates in order for every coordinate value, and hex-to-decimal conversion is exact with or without the 0x prefix; text containing no point of the form bn256.G1(hex, hex), and hex text with an odd number of digits or a character that is no hex digit, is reported as an error.",
 ["inputs"],"all coordinates in [0,2^256) in the 64-digit form, hex strings of 0..64 digits, and malformed variants",
 "Three fixed strings are tested.",
 ["aggregator_lib_circuit.go"],[("extractAndConvert","aggregator_lib_circuit.go"),("hexToDecimalString","aggregator_lib_circuit.go")],["returned strings","returned error"])
p("C31","Verification never alters the proof, instances or auxiliary inputs",
 "Running the field, hash, transcript, curve or aggregator verification never changes the caller's proof, instance and auxiliary values, so that verifying the same inputs again, in any order, gives the same verdict.",
 ["inputs","histories"],"all inputs; every input cell after one run; second run from the post-state",
 "Each test verifies its inputs once.",
 ["circuit.go","aggregator_lib_circuit.go","fr.go","msm.go"],[("AggregatorCircuit.Define","circuit.go"),("GetChallengesShPlonkCircuit","aggregator_lib_circuit.go")],["input values after the run"])
p("C32","Circuits do not inspect witness values while defining constraints",
 "Each circuit can be compiled to a constraint system: building its constraints never depends on concrete witness values, so the same constraint system serves every witness.",
 ["inputs","programs"],"all witnesses, every circuit type of the package",
 "Only some circuits are compiled by a test; the others only run in the test engine.",
 ["circuit.go","aggregator_lib_circuit.go","msm.go","kyc.go","fr.go"],[("Define methods","circuit.go")],["compilation result"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
