From bafe1572776d621b23cb87930eddcffe6d8accb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 01/39] fix: report a non-numeric string instead of
 dereferencing nil in StringToFieldElement

---
 utils/finiteField.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 67bb2ae..d16ace5 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -61,6 +61,9 @@ func (fq Fq) One() *big.Int {
 
 func (fq Fq) StringToFieldElement(a string) (v *big.Int, s bool) {
 	v, s = new(big.Int).SetString(a, 10)
+	if !s {
+		return nil, false
+	}
 	return v.Mod(v, fq.Q), s
 }
 
-- 
2.43.0


From 5f8adc685a32c1c51397f52c80e82a2434323c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 02/39] fix: do not reduce the exponent modulo the field order
 in Exp

---
 utils/finiteField.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index d16ace5..0103628 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -144,7 +144,11 @@ func (fq Fq) Square(a *big.Int) *big.Int {
 // Exp performs the exponential over Fq
 func (fq Fq) Exp(base *big.Int, e *big.Int) *big.Int {
 	res := fq.One()
-	rem := fq.Copy(e)
+	//the exponent lives in Z, reducing it modulo Q would change the result
+	if e.Sign() < 0 {
+		return fq.Inverse(fq.Exp(base, new(big.Int).Neg(e)))
+	}
+	rem := new(big.Int).Set(e)
 	exp := base
 
 	for !bytes.Equal(rem.Bytes(), bigZero.Bytes()) {
-- 
2.43.0


From 7376bac29d96373c1bb68817f7d1af3d945b0e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 03/39] fix: dense polynomial division with a shorter dividend
 or a padded divisor

---
 utils/polynomialField.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index b7dd86d..c83a5ec 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -94,6 +94,13 @@ func (pf PolynomialField) MulSimple(a, b []*big.Int) []*big.Int {
 // Div divides two polinomials over the Finite Field, returning the result and the remainder
 func (pf PolynomialField) Div(a, b []*big.Int) ([]*big.Int, []*big.Int) {
 	// https://en.wikipedia.org/wiki/Division_algorithm
+	//leading zeros do not contribute to the degree of the divisor
+	for len(b) > 1 && b[len(b)-1].Cmp(bigZero) == 0 {
+		b = b[:len(b)-1]
+	}
+	if len(a) < len(b) {
+		return ArrayOfBigZeros(1), a
+	}
 	r := ArrayOfBigZeros(len(a) - len(b) + 1)
 	rem := a
 	for len(rem) >= len(b) {
-- 
2.43.0


From 8cfc15fafdd567173a62a8ee9ee600f2a9a30bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 04/39] fix: terminate the sparse division by a constant
 polynomial

---
 utils/sparsePolynomial.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 6fe136f..93029eb 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -37,7 +37,8 @@ func (fq Fq) DivideSparse(a, b *AvlTree) (result, rem *AvlTree) {
 	result = NewAvlTree()
 	rem = a.Clone()
 	maxA, maxB := rem.MaxNode(), b.MaxNode()
-	for ; maxA != nil && maxB != nil && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
+	//note that the MaxNode of an empty tree is a placeholder with key 0
+	for ; rem.Size() > 0 && maxA.Key() >= maxB.Key(); maxA = rem.MaxNode() {
 		l := fq.Div(maxA.Value(), maxB.Value())
 		pos := maxA.Key() - maxB.Key()
 		aux := NewAvlTree()
-- 
2.43.0


From e53e08002cfe0634f743de855d2412489b7d016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 05/39] fix: reduce the result of SparseScalarProduct

---
 utils/sparsePolynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 93029eb..ddbcd8a 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -182,7 +182,7 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 	res = big.NewInt(0)
 	for v := range a.ChannelNodes(true) {
-		res = res.Add(res, f.Mul(v.Value, b[v.Key]))
+		res = f.Add(res, f.Mul(v.Value, b[v.Key]))
 	}
 	return
 }
-- 
2.43.0


From cb9f9f64a7b80a5b99c59f8f9017bc2efed55e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 06/39] fix: removing an absent key from the AVL tree loses
 entries

---
 utils/avl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/avl.go b/utils/avl.go
index bcf8bc9..123bfa7 100644
--- a/utils/avl.go
+++ b/utils/avl.go
@@ -469,9 +469,11 @@ func (self *AvlNode) Remove(key uint) (_ *AvlNode, value *big.Int, err error) {
 		self.right, value, err = self.right.Remove(key)
 	}
 	if err != nil {
-		return self.balance(), value, err
+		//nothing was removed, and the callers keep their roots
+		return self, value, err
 	}
-	return self, value, err
+	self.height = maximum(self.left.Height(), self.right.Height()) + 1
+	return self.balance(), value, err
 }
 
 func (self *AvlNode) Height() int {
-- 
2.43.0


From b37703ef89bd0ddfe67b831f9dca827e80d4f012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 07/39] fix: do not modify the AVL tree while its nodes are
 being channeled

---
 utils/sparsePolynomial.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index ddbcd8a..68de3a5 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -21,7 +21,8 @@ func (fq Fq) MulSparse(a, b *AvlTree) *AvlTree {
 // Mul multiplies a sparse polynomail with a scalar over the Finite Field
 func (fq Fq) MulSparseScalar(a *AvlTree, scalar *big.Int) *AvlTree {
 	a = a.Clone()
-	for L := range a.ChannelNodes(true) {
+	//iterate over a snapshot, a product of zero removes its node
+	for _, L := range a.DecendingNodes() {
 		a.Put(L.Key, scalar, fq.Mul)
 	}
 	return a
@@ -188,7 +189,8 @@ func (f Fq) SparseScalarProduct(a *AvlTree, b []*big.Int) (res *big.Int) {
 }
 
 func (f Fq) Combine(a *AvlTree, w []*big.Int) (scaledPolynomial *AvlTree) {
-	for v := range a.ChannelNodes(true) {
+	//iterate over a snapshot, a product of zero removes its node
+	for _, v := range a.DecendingNodes() {
 		a.Put(v.Key, w[v.Key], f.Mul)
 	}
 	return a
-- 
2.43.0


From 9470c57082da141549743d1c211b6fa3d41a596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 08/39] fix: doubling a curve point in place

---
 pairing/curve.go | 9 +++++----
 pairing/twist.go | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/pairing/curve.go b/pairing/curve.go
index 819cb81..948329e 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -200,6 +200,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	f := pool.Get().Mul(e, e)
 	f.Mod(f, P)
 
+	//c and a may be the same point, hence z is set before y
+	t.Mul(a.y, a.z)
+	t.Mod(t, P)
+	c.z.Add(t, t)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -211,10 +216,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 	t2.Mod(t2, P)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z)
-	t.Mod(t, P)
-	c.z.Add(t, t)
-
 	pool.Put(A)
 	pool.Put(B)
 	pool.Put(C_)
diff --git a/pairing/twist.go b/pairing/twist.go
index 43364ff..a57eba9 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -182,6 +182,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	e := newGFp2(pool).Add(t, A)
 	f := newGFp2(pool).Square(e, pool)
 
+	//c and a may be the same point, hence z is set before y
+	t.Mul(a.y, a.z, pool)
+	c.z.Add(t, t)
+
 	t.Add(d, d)
 	c.x.Sub(f, t)
 
@@ -192,9 +196,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 	t2.Mul(e, c.y, pool)
 	c.y.Sub(t2, t)
 
-	t.Mul(a.y, a.z, pool)
-	c.z.Add(t, t)
-
 	A.Put(pool)
 	B.Put(pool)
 	C_.Put(pool)
-- 
2.43.0


From 836972a59d23a629401a38d7032351b8e7c087e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 09/39] fix: operator precedence and left associativity of
 expressions

---
 circuitcompiler/parser.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 9609b68..e6962f5 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -452,7 +452,7 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		p.error("Variable or number expected, got %v ", stack[0])
 	}
 
-	l, binOperation, r := splitAtFirstHighestTokenType(stack, Operator)
+	l, binOperation, r := splitAtLastLowestOperator(stack, Operator)
 	l, r = stripOfBrackets(l), stripOfBrackets(r)
 
 	// exp Operator exp
@@ -714,10 +714,30 @@ func splitAtFirstHighestStringType(in []Token, splitAt string) (cutLeft []Token,
 	return in, nil
 }
 
-//splitAtFirstHighestTokenType takes takes a string S and a token array and splits st:
-func splitAtFirstHighestTokenType(in []Token, splitAt TokenType) (cutLeft []Token, tok Token, cutRight []Token) {
+//operatorPrecedence returns how strong an operator binds (as in Go). operators that bind weaker are split first
+func operatorPrecedence(tok Token) int {
+	switch {
+	case tok.Type == AssignmentOperatorToken:
+		return 0
+	case tok.Identifier == "||":
+		return 1
+	case tok.Identifier == "&&":
+		return 2
+	case tok.Type == BinaryComperatorToken:
+		return 3
+	case tok.Identifier == "+" || tok.Identifier == "-":
+		return 4
+	default:
+		return 5
+	}
+}
+
+//splitAtLastLowestOperator splits at the weakest binding operator outside of any brackets. If there are several of
+//them, it splits at the last one, since operators are left associative: a-b*c-d -> ( a-b*c , - , d )
+func splitAtLastLowestOperator(in []Token, splitAt TokenType) (cutLeft []Token, tok Token, cutRight []Token) {
 	ctr1 := 0
 	ctr2 := 0
+	pos := -1
 	for i := 0; i < len(in); i++ {
 		if in[i].Identifier == "(" {
 			ctr1++
@@ -733,13 +753,15 @@ func splitAtFirstHighestTokenType(in []Token, splitAt TokenType) (cutLeft []Toke
 		}
 
 		if (in[i].Type&splitAt) != 0 && ctr1 == 0 && ctr2 == 0 {
-			if i == len(in)-1 {
-				return in[:i], in[i], cutRight
+			if pos == -1 || operatorPrecedence(in[i]) <= operatorPrecedence(in[pos]) {
+				pos = i
 			}
-			return in[:i], in[i], in[i+1:]
 		}
 	}
-	return nil, Token{}, nil
+	if pos == -1 {
+		return nil, Token{}, nil
+	}
+	return in[:pos], in[pos], in[pos+1:]
 }
 
 //splitTokensAtFirstString takes takes a string S and a token array and splits st: abScd -> ( ab , Scd )
-- 
2.43.0


From 77c06604e604725be897ce6bdc421df9043c489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 10/39] fix: addGateConstraint multiplies constants of its
 summands

---
 circuitcompiler/Programm.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 202117e..cf70525 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -431,11 +431,11 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			rightClone := currentConstraint.Inputs[1].clone()
 			leftFactors, _, _ := currentCircuit.compile(leftClone, gateCollector)
 			rightFactors, _, _ := currentCircuit.compile(rightClone, gateCollector)
-			commonExtracted, extractedLeft, extractedRight := extractConstant(leftFactors, rightFactors)
 
+			//constants cannot be extracted from the summands independently: a*x + b*y != a*b*(x+y)
 			rootGate := &Gate{
 				gateType: additionGate,
-				leftIns:  addFactors(extractedLeft, extractedRight),
+				leftIns:  addFactors(leftFactors, rightFactors),
 			}
 
 			nTok := Token{
@@ -449,7 +449,7 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			}}
 			fres := factor{
 				typ:            nTok,
-				multiplicative: commonExtracted,
+				multiplicative: bigOne,
 			}
 			return factors{fres}, false, function{}
 		case "scalarBaseMultiply":
-- 
2.43.0


From 98bd730c14c9e28c0a935bfaa27630c40a723e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 11/39] fix: summands with coefficient zero

A product with the number zero kept summands 0*x, and gate inputs made only
of zeros have gcd 0, by which all of them were divided.
---
 circuitcompiler/factorHandling.go | 43 ++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index a8f0caa..b36c9ef 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -61,6 +61,9 @@ func extractGCD(f factors) (factors, *big.Int) {
 	for i := 1; i < len(f); i++ {
 		gcd = new(big.Int).GCD(nil, nil, f[i].multiplicative, gcd)
 	}
+	if gcd.Sign() == 0 {
+		return f, bigOne
+	}
 	for i := 0; i < len(f); i++ {
 		f[i].multiplicative = new(big.Int).Div(f[i].multiplicative, gcd)
 
@@ -163,7 +166,27 @@ func mulFactors(leftFactors, rightFactors factors) (result factors) {
 			panic("unexpected. If this errror is thrown, its probably brcause a true multiplication Gate has been skipped and treated as on with constant multiplication or addition ")
 		}
 	}
-	return leftFactors
+	return dropZeroFactors(leftFactors)
+}
+
+//removes all summands 0*x. If nothing remains, the result is the number 0
+func dropZeroFactors(f factors) factors {
+	res := make(factors, 0, len(f))
+	for _, val := range f {
+		if val.multiplicative.Sign() != 0 {
+			res = append(res, val)
+		}
+	}
+	if len(res) == 0 {
+		res = factors{factor{
+			typ: Token{
+				Type:       NumberToken,
+				Identifier: "0",
+			},
+			multiplicative: bigZero,
+		}}
+	}
+	return res
 }
 
 //returns the absolute value of a signed int and a flag telling if the input was positive or not
@@ -218,23 +241,7 @@ func addFactors(leftFactors, rightFactors factors) factors {
 		}
 	}
 
-	//not that we should keep at leost one 0 factor, in case all are 0
-	for _, val := range rightFactors {
-		if val.multiplicative.Cmp(bigZero) != 0 {
-			res = append(res, val)
-		}
-	}
-
-	if len(res) == 0 {
-		res = []factor{factor{
-			typ: Token{
-				Type:       NumberToken,
-				Identifier: "0",
-			},
-			multiplicative: bigZero,
-		}}
-	}
-	return res
+	return dropZeroFactors(append(res, rightFactors...))
 }
 func negateFactors(leftFactors factors) factors {
 	for i := range leftFactors {
-- 
2.43.0


From f43ae43f1f69ac23064c5a4fd1256bc6cd67d313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 12/39] fix: negateFactors changed the coefficients it was
 given in place

---
 circuitcompiler/factorHandling.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index b36c9ef..96c1d5e 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -246,7 +246,7 @@ func addFactors(leftFactors, rightFactors factors) factors {
 func negateFactors(leftFactors factors) factors {
 	for i := range leftFactors {
 		//leftFactors[i].multiplicative = field.Neg(leftFactors[i].multiplicative)
-		leftFactors[i].multiplicative = leftFactors[i].multiplicative.Neg(leftFactors[i].multiplicative)
+		leftFactors[i].multiplicative = new(big.Int).Neg(leftFactors[i].multiplicative)
 		if leftFactors[i].typ.Type == NumberToken {
 			leftFactors[i].typ.Identifier = leftFactors[i].multiplicative.String()
 		}
-- 
2.43.0


From f96e3ca5d01d94ea0f4dfaf5d495274af179c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 13/39] fix: reject the division by a constant zero

---
 circuitcompiler/Programm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index cf70525..4869660 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -566,6 +566,9 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 				rightFactors, _, _ = currentCircuit.compile(right, gateCollector)
 
 				if rightFactors.isSingleNumber() { // (x1+x2..)/6
+					if new(big.Int).Mod(rightFactors[0].multiplicative, field.Q).Sign() == 0 {
+						panic("division by zero")
+					}
 					return mulFactors(leftFactors, invertFactors(rightFactors)), currentConstraint.Output.Type == RETURN, function{}
 				}
 
-- 
2.43.0


From bfaf6064e496fac8342644915d174a5cd82c464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH 14/39] fix: parsing an if as the last statement of a block

---
 circuitcompiler/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index e6962f5..8b3e525 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -229,16 +229,17 @@ func (p *Parser) statementMode(tokens []Token) {
 		handeFunc(1, true, IF)
 
 		hasElseIf := false
-		for rest[0].Type == ELSE && rest[1].Type == IF {
+		for len(rest) > 1 && rest[0].Type == ELSE && rest[1].Type == IF {
 			handeFunc(2, true, ELSE)
 			hasElseIf = true
 		}
 
-		if rest[0].Type != ELSE && hasElseIf {
+		hasElse := len(rest) > 0 && rest[0].Type == ELSE
+		if !hasElse && hasElseIf {
 			p.error("you used else if, so a else at the end is required")
 		}
 
-		if rest[0].Type == ELSE {
+		if hasElse {
 			handeFunc(1, false, ELSE)
 		}
 		p.constraintChan <- &Constraint{Output: Token{Type: IF_ELSE_CHAIN_END}}
-- 
2.43.0


From a4d0f35dfa1dbdb65a358d2e5d51c38143dce340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 15/39] fix: a return inside a for loop did not end the
 function

---
 circuitcompiler/Programm.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 4869660..7ccb09d 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -247,13 +247,11 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 	case FOR:
 		//we check the condition each time we rerun the loop
 		for currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
-			content := &Constraint{
-				Output: Token{
-					Type:       FUNCTION_CALL,
-					Identifier: currentConstraint.Output.Identifier,
-				},
+			body, ex := currentCircuit.findFunctionInBloodline(currentConstraint.Output.Identifier)
+			if !ex {
+				panic(fmt.Sprintf("function %s not declared", currentConstraint.Output.Identifier))
 			}
-			f, retu, fkt := currentCircuit.compile(content, gateCollector)
+			f, retu, fkt := body.flatCopy().execute(gateCollector)
 			if retu {
 				return f, true, fkt
 			}
-- 
2.43.0


From ab59cc59c4aa550ecdaa160b718d834b1b6af42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 16/39] fix: a bare return yields a number without a name

---
 circuitcompiler/Programm.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 7ccb09d..32cd0ae 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -274,7 +274,8 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		switch len(currentConstraint.Inputs) {
 		case 0:
 			fac := factor{typ: Token{
-				Type: NumberToken,
+				Type:       NumberToken,
+				Identifier: "1",
 			}, multiplicative: big.NewInt(1)}
 			return factors{fac}, true, function{}
 		case 1:
-- 
2.43.0


From 86d52036f4c9a80162fa5cd8da53b9e5d9b9678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 17/39] fix: branches after the first one taken of an if-else
 chain were executed too

---
 circuitcompiler/Programm.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 32cd0ae..c9cce4e 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -198,6 +198,18 @@ func (p *Program) Execute() (orderedmGates []*Gate) {
 func (currentCircuit *function) execute(gateCollector *gateContainer) (facs factors, returned bool, preloadedFunction function) {
 
 	for _, task := range currentCircuit.taskStack.data {
+		if task.Output.Type == IF {
+			//branches of one if-else chain. only the first branch whose condition holds is executed
+			if len(task.Inputs) != 0 && !currentCircuit.checkStaticCondition(task.Inputs[0]) {
+				continue
+			}
+			return currentCircuit.compile(&Constraint{
+				Output: Token{
+					Type:       IF_FUNCTION_CALL,
+					Identifier: task.Output.Identifier,
+				},
+			}, gateCollector)
+		}
 		f, returs, fkt := currentCircuit.compile(task, gateCollector)
 		if returs {
 			return f, true, fkt
@@ -328,17 +340,6 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 		} else {
 			panic(fmt.Sprintf("array %s not declared", resolvedName))
 		}
-	case IF:
-		if len(currentConstraint.Inputs) == 0 || currentCircuit.checkStaticCondition(currentConstraint.Inputs[0]) {
-			return currentCircuit.compile(&Constraint{
-				Output: Token{
-					Type:       IF_FUNCTION_CALL,
-					Identifier: currentConstraint.Output.Identifier,
-				},
-			}, gateCollector)
-		} else {
-			return nil, false, function{}
-		}
 	case IF_FUNCTION_CALL:
 		var nextCircuit *function
 		var ex bool
-- 
2.43.0


From d2c10de4dba6156d230fb6a3fd4b71cd0cb4440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 18/39] fix: find the end of an if-else chain containing nested
 ones

---
 circuitcompiler/circuit.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index b64bbd5..62611bb 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -488,9 +488,17 @@ func (from Token) primitiveReturnfunction() (gives *function) {
 
 func splitAtIfEnd(cs []*Constraint) (inside, outside []*Constraint) {
 
+	ctr := 0 //number of opened if-else chains
+
 	for i, v := range cs {
+		if v.Output.Type == IF {
+			ctr++
+		}
 		if v.Output.Type == IF_ELSE_CHAIN_END {
-			return cs[:i], cs[i:]
+			ctr--
+			if ctr == 0 {
+				return cs[:i], cs[i:]
+			}
 		}
 	}
 	panic("unexpected reach")
-- 
2.43.0


From dbf974cb0a7b05cd62c4c8ec039a106b542e3202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 19/39] fix: make the bits of a split variable accessible,
 reject splitting a scaled variable or a number

The bits were never registered under x[i], a coefficient of the variable was
ignored, and a number was taken for the one-signal.
---
 circuitcompiler/Programm.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index c9cce4e..7305cbe 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -366,9 +366,18 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 			//prepare input number Z
 			arg := currentConstraint.Inputs[0].clone()
 			in, _, _ := currentCircuit.compile(arg, gateCollector)
-			if len(in) != 1 {
+			if len(in) != 1 || in[0].typ.Type == NumberToken || in[0].multiplicative.Cmp(bigOne) != 0 {
 				panic("arguments in split must be pure")
 			}
+			//the scope which holds the variable will hold its bits too
+			bitArray := ""
+			switch arg.Output.Type {
+			case IDENTIFIER_VARIABLE:
+				bitArray = arg.Output.Identifier
+			case ARRAY_CALL:
+				bitArray = currentCircuit.resolveArrayName(arg)
+			}
+			bitContext, isVariable := currentCircuit.getCircuitContainingFunctionInBloodline(bitArray)
 
 			//hmm what is this actually good for
 			//sig := hashFactorsToBig(in).String()[:16]
@@ -398,8 +407,17 @@ func (currentCircuit *function) compile(currentConstraint *Constraint, gateColle
 					typ:            nTok,
 					multiplicative: new(big.Int).Lsh(bigOne, uint(i)),
 				}
-				// we need to add the bits during precompilations so we can access them like from an array
-				//	currentCircuit.constraintMap
+				// we add the bits such that we can access them like from an array
+				if isVariable {
+					bitName := fmt.Sprintf("%v[%v]", bitArray, i)
+					bitContext.functions[bitName] = nTok.primitiveReturnfunction()
+					bitContext.constraintMap[bitName] = &Constraint{
+						Output: Token{
+							Type:       FUNCTION_CALL,
+							Identifier: bitName,
+						},
+					}
+				}
 			}
 			//add the sum constraint \sum Z_i 2^i = Z to ensure that the Zi are the bit representation of Z
 
-- 
2.43.0


From 3fcdb48f53eacda07cc5ee8092e9cbfce2545ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 20/39] fix: an equality and a product of the same operands
 were taken for the same gate

---
 circuitcompiler/gate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index 32c858d..a9ede84 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -1,6 +1,7 @@
 package circuitcompiler
 
 import (
+	"crypto/sha256"
 	"fmt"
 	"math/big"
 	"sort"
@@ -54,6 +55,9 @@ func (gate *Gate) setAndGetID() (id string) {
 	sort.Sort(gate.expoIns)
 	sort.Sort(gate.outIns)
 	eo := hashFactorsToBig(append(gate.expoIns, gate.outIns...))
+	//gates of different types on the same inputs are different gates, such as a*b and equal(a,b)
+	typ := sha256.Sum256([]byte{byte(gate.gateType)})
+	lr.Add(lr, new(big.Int).SetBytes(typ[:]))
 	gate.identifier = new(big.Int).Xor(lr, eo).String()[:16]
 	return gate.identifier
 }
-- 
2.43.0


From 2f2019c818a71d46403be6e8d4a2238a1c4ea6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 21/39] fix: functions passed in a partial application lost the
 scope they were defined in

---
 circuitcompiler/Programm.go |  1 +
 circuitcompiler/circuit.go  | 11 +++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 7305cbe..7f4423d 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -151,6 +151,7 @@ func (currentCircuit *function) getsLoadedWith(newInputs []*function) (allArgume
 	}
 	for i := 0; i < len(newInputs); i++ {
 		currentCircuit.functions[currentCircuit.Inputs[i]] = newInputs[i]
+		currentCircuit.loaded[currentCircuit.Inputs[i]] = true
 	}
 	currentCircuit.Inputs = currentCircuit.Inputs[len(newInputs):]
 	return
diff --git a/circuitcompiler/circuit.go b/circuitcompiler/circuit.go
index 62611bb..e9b0612 100644
--- a/circuitcompiler/circuit.go
+++ b/circuitcompiler/circuit.go
@@ -23,6 +23,9 @@ type function struct {
 	//this are the functions, that are defined within this function
 	functions map[string]*function
 
+	//names of the functions which were passed as arguments. They keep the context they were defined in
+	loaded map[string]bool
+
 	//this will stay. the concept of a taskstack is relevant
 	taskStack *watchstack
 	//lets turn this into something we only need for the semantic check
@@ -35,7 +38,7 @@ type watchstack struct {
 
 func newCircuit(name string, context *function) *function {
 
-	c := &function{Context: context, Name: name, Inputs: []string{}, constraintMap: make(map[string]*Constraint), taskStack: newWatchstack(), functions: make(map[string]*function)}
+	c := &function{Context: context, Name: name, Inputs: []string{}, constraintMap: make(map[string]*Constraint), taskStack: newWatchstack(), functions: make(map[string]*function), loaded: make(map[string]bool)}
 
 	return c
 }
@@ -366,7 +369,11 @@ func (circ *function) flatCopy() (clone *function) {
 	//clone.constraintMap = circ.constraintMap
 	for k, v := range circ.functions {
 		f := v.flatCopy()
-		f.Context = clone
+		if circ.loaded[k] {
+			clone.loaded[k] = true
+		} else {
+			f.Context = clone
+		}
 		clone.functions[k] = f
 	}
 	for k, v := range circ.constraintMap {
-- 
2.43.0


From af8ec4d786abff802bf00aa5e60503bed31cbbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 22/39] fix: interpolate the sparse columns over the number of
 gates, not of wires

---
 circuitcompiler/ER1CS.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 6f8bc28..8e38680 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -127,13 +127,13 @@ func (er1cs *ER1CSsPARSETransposed) ER1CSToEAPSparse() (lPoly, rPoly, ePoly, oPo
 	eT := er1cs.E
 	oT := er1cs.O
 	for i := 0; i < len(lT); i++ {
-		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.WitnessLength))
+		lPoly = append(lPoly, utils.Field.ArithmeticField.InterpolateSparseArray(lT[i], er1cs.NumberOfGates))
 
-		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.WitnessLength))
+		rPoly = append(rPoly, utils.Field.ArithmeticField.InterpolateSparseArray(rT[i], er1cs.NumberOfGates))
 
-		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.WitnessLength))
+		ePoly = append(ePoly, utils.Field.ArithmeticField.InterpolateSparseArray(eT[i], er1cs.NumberOfGates))
 
-		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.WitnessLength))
+		oPoly = append(oPoly, utils.Field.ArithmeticField.InterpolateSparseArray(oT[i], er1cs.NumberOfGates))
 	}
 	return
 }
-- 
2.43.0


From b24026031134115f103895f92f5cc21410808071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 23/39] fix: numbers are hashed by their value, not by how they
 were written

---
 circuitcompiler/factorHandling.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index 96c1d5e..8648750 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -39,6 +39,10 @@ func (f factors) Less(i, j int) bool {
 func (f factor) String() string {
 
 	str := f.typ.Identifier
+	if f.typ.Type == NumberToken {
+		//a number is a multiple of the one signal, no matter how it was written. s.t. 2+2*x has the same signature as 1+x once the 2 is extracted
+		str = "1"
+	}
 
 	return fmt.Sprintf("(\"%s\"  fac: %v)", str, f.multiplicative)
 }
-- 
2.43.0


From fe549a1ff007b9375580f90607022c49e1580a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 24/39] fix: a last statement without a line break after it

---
 circuitcompiler/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 8b3e525..6fd50b1 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -639,7 +639,11 @@ func (p *Parser) stackAllTokens() []Token {
 	for tok := p.nextToken(); tok.Type != EOF; tok = p.nextToken() {
 		stack = append(stack, *tok)
 	}
+	//the last statement may end with the code instead of a line break
 	stack = append(stack, Token{
+		Type:       SyntaxToken,
+		Identifier: "\n",
+	}, Token{
 		Type: EOF,
 	})
 	return stack
-- 
2.43.0


From edaf5250f4ddb05e6d7fd78bed619e7c30c0c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 25/39] fix: white space at the end of the code was taken for a
 nameless identifier

---
 circuitcompiler/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 72bff75..5a2129f 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -468,6 +468,9 @@ func ProbablyWhitespaceState(l *Lexer) StateFunc {
 	l.Take(" \t\r")
 	l.Ignore()
 
+	if l.Peek() == EOFRune {
+		return nil
+	}
 	return IdentState
 }
 
@@ -487,5 +490,8 @@ func WhitespaceState(l *Lexer) StateFunc {
 	l.Take(" \t\r")
 	l.Ignore()
 
+	if l.Peek() == EOFRune {
+		return nil
+	}
 	return IdentState
 }
-- 
2.43.0


From 926abcc108e9c78d5eb3f5ce51f969e4b165b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 26/39] fix: the lexer did not end on unknown characters and
 unterminated strings

---
 circuitcompiler/lexer.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 5a2129f..9336e4b 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -408,7 +408,10 @@ func IdentState(l *Lexer) StateFunc {
 		l.Next()
 		l.Ignore()
 		for l.Peek() != '"' { // we read everything inside " ", used for import
-			l.Next()
+			if l.Next() == EOFRune {
+				l.Error("closing \" missing")
+				return nil
+			}
 		}
 		l.Emit(IDENTIFIER_VARIABLE)
 		l.Next()
@@ -439,6 +442,11 @@ func IdentState(l *Lexer) StateFunc {
 	//read the next word and push it on stack
 	readIdent(l)
 
+	if l.Current() == "" {
+		l.Error(fmt.Sprintf("unexpected character %q", peek))
+		return nil
+	}
+
 	if val, ex := keyWordMap[l.Current()]; ex {
 		l.Emit(val)
 		return ProbablyWhitespaceState
-- 
2.43.0


From 51e155326429e82154b6da405a31489be01fad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 27/39] fix: the lexer moved back too far after an invalid byte

---
 circuitcompiler/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index 9336e4b..a5ebb79 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -276,7 +276,8 @@ func (l *Lexer) PeekTwo() string {
 func (l *Lexer) Rewind() {
 	r := l.rewind.pop()
 	if r > EOFRune {
-		size := utf8.RuneLen(r)
+		//not the length of r: a byte which is no valid UTF-8 is read as a rune that takes three bytes
+		_, size := utf8.DecodeLastRuneInString(l.source[:l.position])
 		l.position -= size
 		if l.position < l.start {
 			l.position = l.start
-- 
2.43.0


From 41f762ae0c7aa56daf6210b2ea6d8f37d1174a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 28/39] fix: StartSync did not end if the code has more tokens
 than half its characters

---
 circuitcompiler/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/lexer.go b/circuitcompiler/lexer.go
index a5ebb79..302cccc 100644
--- a/circuitcompiler/lexer.go
+++ b/circuitcompiler/lexer.go
@@ -218,8 +218,8 @@ func (l *Lexer) Start() {
 }
 
 func (l *Lexer) StartSync() {
-	// Take half the string length as a buffer size.
-	buffSize := len(l.source) / 2
+	// nobody reads the tokens meanwhile, so all of them need to fit in. There are not more than characters.
+	buffSize := len(l.source)
 	if buffSize <= 0 {
 		buffSize = 1
 	}
-- 
2.43.0


From eb003c97a35302b4385c1538880e4c1d7f372a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 29/39] fix: missing and doubled opening brackets were accepted

---
 circuitcompiler/parser.go | 65 +++++++++++++++------------------------
 1 file changed, 24 insertions(+), 41 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 6fd50b1..d708a35 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -119,7 +119,7 @@ func (p *Parser) statementMode(tokens []Token) {
 		//NOTE THAT WE GOT ERROR WHEN USING &Constraint{} instead of Constraint{}, dont understand why
 		buffer := Constraint{}
 
-		rest := p.argumentParse(toks.toks, splitAtClosingSwingBrackets, &buffer)
+		rest := p.argumentParse(tokens[1:], splitAtClosingSwingBrackets, &buffer)
 		for _, publicInput := range buffer.Inputs {
 			publicInput.Output.Type = PUBLIC
 			p.constraintChan <- publicInput
@@ -147,9 +147,8 @@ func (p *Parser) statementMode(tokens []Token) {
 			Output: Token{Type: FUNCTION_DEFINE, Identifier: tok.Identifier},
 		}
 
-		tok = toks.next()
-		if tok.Identifier != "(" {
-			p.error("Function expected, got %v ", tok)
+		if len(toks.toks) == 0 || toks.toks[0].Identifier != "(" {
+			p.error("'(' expected after %v ", tok)
 		}
 
 		rest := p.argumentParse(toks.toks, splitAtClosingBrackets, FuncConstraint)
@@ -187,13 +186,8 @@ func (p *Parser) statementMode(tokens []Token) {
 			FuncConstraintInputs = append(FuncConstraintInputs, v)
 		}
 		FuncConstraint.Inputs = FuncConstraintInputs
-		toks.toks = rest
-		tok = toks.next()
-		if tok.Identifier != "{" {
-			p.error("invalid function declaration, got %v : %v", tok.Identifier, tok.Type)
-		}
 		p.constraintChan <- FuncConstraint
-		l, r, b := splitAtClosingSwingBrackets(toks.toks)
+		l, r, b := splitAtClosingSwingBrackets(rest)
 		if !b {
 			panic("closing brackets missing")
 		}
@@ -249,9 +243,9 @@ func (p *Parser) statementMode(tokens []Token) {
 	case FOR:
 		// for (  a<5 ; a+=1)
 		ForConst := &Constraint{Output: Token{Type: FOR}, Inputs: []*Constraint{}}
-		var success bool
-		if tokens[1].Identifier != "(" {
-			p.error("brackets '(' missing, got %v", tokens[1])
+		header, body, success := splitAtClosingBrackets(tokens[1:])
+		if !success {
+			p.error("brackets '(' ')' missing, got %v", tokens[1])
 		}
 		// a = 4;
 		//l, r := splitTokensAtFirstString(tokens[2:], ";")
@@ -272,17 +266,13 @@ func (p *Parser) statementMode(tokens []Token) {
 		//ForConst.Inputs = append(ForConst.Inputs, varConst)
 
 		// a <5;
-		l, r := splitTokensAtFirstString(tokens[2:], ";")
-		if r[0].Identifier != ";" {
-			p.error("';' expected, got %v", r[0])
+		l, r := splitTokensAtFirstString(header, ";")
+		if len(r) == 0 {
+			p.error("';' expected in %v", header)
 		}
-		r = r[1:]
 		p.parseExpression(l, ForConst)
-		//a = a+1)
-		l, r, success = splitAtClosingBrackets(r)
-		if !success {
-			p.error("closing brackets missing")
-		}
+		//a = a+1
+		l = r[1:]
 		if b, _, err := isVariableAssignment(l); !b {
 			p.error(err)
 		}
@@ -302,12 +292,7 @@ func (p *Parser) statementMode(tokens []Token) {
 		ForConst.Inputs = append(ForConst.Inputs, varConst)
 
 		p.constraintChan <- ForConst
-		r = removeLeadingBreaks(r)
-
-		if r[0].Identifier != "{" {
-			p.error("brackets '{' missing, got %v", r[0])
-		}
-		l, r, success = splitAtClosingSwingBrackets(r[1:])
+		l, r, success = splitAtClosingSwingBrackets(removeLeadingBreaks(body))
 		if !success {
 			p.error("closing brackets missing")
 		}
@@ -527,7 +512,7 @@ func (p *Parser) parseExpression(stack []Token, constraint *Constraint) {
 		}
 		cr := &Constraint{Output: rtok}
 		constraint.Inputs = append(constraint.Inputs, cr)
-		l, r, _ := splitAtClosingSquareBrackets(stack[2:])
+		l, r, _ := splitAtClosingSquareBrackets(stack[1:])
 		p.parseExpression(l, cr)
 		for len(r) != 0 {
 			l, r, _ = splitAtClosingSquareBrackets(r)
@@ -801,12 +786,12 @@ func isSurroundedByBrackets(in []Token) bool {
 	return false
 }
 
-//splitAtClosingBrackets takes token array asserting that the opening brackets
-//are not contained! Returns the slices without the closing bracket in an of them!
+//splitAtClosingBrackets takes token array which has to start with the opening bracket.
+//Returns the slices inside of the brackets and behind them
 //note that this behaviour differs from splitTokensAtFirstString
-//example "asdf)jkl" -> "asdf" ,"jkl" ,true
-//"(asdf)jkl" -> nil,nil,false
-//"(asdf))jkl" -> "(asdf)","jkl",true
+//example "(asdf)jkl" -> "asdf" ,"jkl" ,true
+//"asdf)jkl" -> nil,nil,false
+//"((asdf)jkl" -> nil,nil,false
 func splitAtClosingBrackets(in []Token) (cutLeft, cutRight []Token, success bool) {
 	return splitAtClosingStringBrackets(in, "(", ")")
 }
@@ -818,12 +803,10 @@ func splitAtClosingSquareBrackets(in []Token) (cutLeft, cutRight []Token, succes
 }
 
 func splitAtClosingStringBrackets(in []Token, open, close string) (cutLeft, cutRight []Token, success bool) {
-	ctr := 0
-	start := 1
-	if in[0].Identifier != open {
-		ctr = 1
-		start = 0
+	if len(in) == 0 || in[0].Identifier != open {
+		return nil, nil, false
 	}
+	ctr := 0
 
 	for i := 0; i < len(in); i++ {
 		if in[i].Identifier == open {
@@ -833,9 +816,9 @@ func splitAtClosingStringBrackets(in []Token, open, close string) (cutLeft, cutR
 			ctr--
 			if ctr == 0 {
 				if i == len(in)-1 {
-					return in[start:i], cutRight, true
+					return in[1:i], cutRight, true
 				}
-				return in[start:i], in[i+1:], true
+				return in[1:i], in[i+1:], true
 			}
 		}
 	}
-- 
2.43.0


From 969c02cf02c94472749f437c11a550bb2dd476fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 30/39] fix: malformed declarations were dropped or accepted

---
 circuitcompiler/parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index d708a35..28d5ffb 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -142,6 +142,9 @@ func (p *Parser) statementMode(tokens []Token) {
 		toks := Tokens{toks: tokens}
 		var tok = toks.next() //func
 		tok = toks.next()     //function name
+		if tok.Type != FUNCTION_CALL && tok.Type != IDENTIFIER_VARIABLE {
+			p.error("function name expected, got %v", tok)
+		}
 
 		FuncConstraint := &Constraint{
 			Output: Token{Type: FUNCTION_DEFINE, Identifier: tok.Identifier},
@@ -369,7 +372,7 @@ func (p *Parser) statementMode(tokens []Token) {
 			p.statementMode(r)
 			return
 		}
-		//var a = func(){}
+		p.error("invalid variable declaration %v", l)
 	case RETURN:
 		//return (1+a)
 		l, r := splitTokensAtFirstString(tokens, "\n")
@@ -596,7 +599,7 @@ func isArrayAssignment(stx []Token) (yn bool, err string) {
 	if stx[1].Identifier != "[" || stx[2].Identifier != "]" {
 		return false, "brackets  expected"
 	}
-	if stx[3].Type != AssignmentOperatorToken {
+	if stx[3].Identifier != "=" {
 		return false, "assignment  expected"
 	}
 	if stx[4].Identifier != "{" {
@@ -613,7 +616,7 @@ func isVariableAssignment(stx []Token) (yn bool, rem []Token, err string) {
 	if stx[0].Type != IDENTIFIER_VARIABLE {
 		return false, nil, "identifier expected"
 	}
-	if stx[1].Type != AssignmentOperatorToken {
+	if stx[1].Identifier != "=" {
 		return false, nil, "assignment  expected"
 	}
 	return true, stx[2:], ""
-- 
2.43.0


From ec76d358502f0f6ea6fcfeac33a30baec4e1e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 31/39] fix: public inputs which are no arguments of main, or
 declared twice, were accepted

---
 circuitcompiler/Programm.go | 17 +++++++++++++++++
 circuitcompiler/parser.go   |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/circuitcompiler/Programm.go b/circuitcompiler/Programm.go
index 7f4423d..2cb74bc 100644
--- a/circuitcompiler/Programm.go
+++ b/circuitcompiler/Programm.go
@@ -124,6 +124,23 @@ func CombineInputs(abstract []string, concrete []*big.Int) (res []InputArgument)
 func (p *Program) GlobalInputCount() int {
 	return len(p.PublicInputs)
 }
+
+//checkPublicInputs panics unless the public inputs are different arguments of main
+func (p *Program) checkPublicInputs() {
+	if len(p.PublicInputs) == 1 {
+		return
+	}
+	private := make(map[string]bool)
+	for _, name := range p.GetMainCircuit().Inputs {
+		private[name] = true
+	}
+	for _, name := range p.PublicInputs[1:] {
+		if !private[name] {
+			panic(fmt.Sprintf("public input %v is no argument of main or already declared public", name))
+		}
+		private[name] = false
+	}
+}
 func (p *Program) GetMainCircuit() *function {
 	return p.globalFunction.functions["main"]
 }
diff --git a/circuitcompiler/parser.go b/circuitcompiler/parser.go
index 28d5ffb..e8c2bf2 100644
--- a/circuitcompiler/parser.go
+++ b/circuitcompiler/parser.go
@@ -94,6 +94,9 @@ out:
 
 	//p = newProgram(big.NewInt(1993), big.NewInt(1993))
 	p.globalFunction.preCompile(constraintStack)
+	if checkSemantics {
+		p.checkPublicInputs()
+	}
 	return p
 }
 
-- 
2.43.0


From 288d28433882c91f479f6fc4cf1fdf5e0ace9236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 32/39] fix: bits of inputs which are no residues were not
 those of the residue

---
 circuitcompiler/ER1CS.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 8e38680..1761b1b 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -162,7 +162,7 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 	}
 
 	for _, v := range input {
-		setWitness(r1cs.indexMap[v.identifier], v.value)
+		setWitness(r1cs.indexMap[v.identifier], field.Affine(v.value))
 		set[r1cs.indexMap[v.identifier]] = true
 	}
 
@@ -314,7 +314,7 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 	}
 
 	for _, v := range input {
-		witness[r1cs.indexMap[v.identifier]] = v.value
+		witness[r1cs.indexMap[v.identifier]] = field.Affine(v.value)
 		set[r1cs.indexMap[v.identifier]] = true
 	}
 
-- 
2.43.0


From 08e343cb48ab6b715e06455bf328909153fc61e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 33/39] fix: inputs with unknown names overwrote the constant
 one, contradicting inputs were accepted

---
 circuitcompiler/ER1CS.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/circuitcompiler/ER1CS.go b/circuitcompiler/ER1CS.go
index 1761b1b..fcd85c5 100644
--- a/circuitcompiler/ER1CS.go
+++ b/circuitcompiler/ER1CS.go
@@ -138,6 +138,24 @@ func (er1cs *ER1CSsPARSETransposed) ER1CSToEAPSparse() (lPoly, rPoly, ePoly, oPo
 	return
 }
 
+//setInputs writes the inputs to their positions in the witness. It returns an error if an input is not part of the
+//system, or if it is already set to another value
+func setInputs(indexMap map[string]int, input []InputArgument, witness []*big.Int, set []bool) error {
+	for _, v := range input {
+		index, ex := indexMap[v.identifier]
+		if !ex {
+			return errors.New(fmt.Sprintf("the program has no input %v", v.identifier))
+		}
+		value := field.Affine(v.value)
+		if set[index] && witness[index].Cmp(value) != 0 {
+			return errors.New(fmt.Sprintf("the input %v is already set to %v", v.identifier, witness[index]))
+		}
+		witness[index] = value
+		set[index] = true
+	}
+	return nil
+}
+
 //Calculates the witness (program trace) given some extended rank 1 constraint system
 //asserts that ER1CS has been computed and is stored in the program p memory calling this function
 func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, err error) {
@@ -161,9 +179,8 @@ func CalculateWitness(r1cs *ER1CS, input []InputArgument) (witness []*big.Int, e
 		set[r1cs.indexMap[randInput]] = true
 	}
 
-	for _, v := range input {
-		setWitness(r1cs.indexMap[v.identifier], field.Affine(v.value))
-		set[r1cs.indexMap[v.identifier]] = true
+	if err = setInputs(r1cs.indexMap, input, witness, set); err != nil {
+		return nil, err
 	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
@@ -313,9 +330,8 @@ func CalculateSparseWitness(r1cs *ER1CSSparse, input []InputArgument) (witness [
 		set[r1cs.indexMap[randInput]] = true
 	}
 
-	for _, v := range input {
-		witness[r1cs.indexMap[v.identifier]] = field.Affine(v.value)
-		set[r1cs.indexMap[v.identifier]] = true
+	if err = setInputs(r1cs.indexMap, input, witness, set); err != nil {
+		return nil, err
 	}
 
 	//inverseSplitmap maps each bit index onto (bitposition,positionOfFather)
-- 
2.43.0


From d3878afe5e8cf7574287149eedb8c83415a249f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:38 +0000
Subject: [PATCH 34/39] fix: gates were identified by 16 digits of their hash,
 and different gates with equal digits merged

---
 circuitcompiler/factorHandling.go | 2 +-
 circuitcompiler/gate.go           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuitcompiler/factorHandling.go b/circuitcompiler/factorHandling.go
index 8648750..ffef5a6 100644
--- a/circuitcompiler/factorHandling.go
+++ b/circuitcompiler/factorHandling.go
@@ -86,7 +86,7 @@ func hashFactorsToBig(f factors) *big.Int {
 
 func (fac factors) factorSignature() string {
 	h := hashFactorsToBig(fac)
-	return h.String()[:16]
+	return h.String()
 }
 
 func extractGCD_andSignature(leftFactors factors) (sig MultiplicationGateSignature, extractedLeftFactors factors) {
diff --git a/circuitcompiler/gate.go b/circuitcompiler/gate.go
index a9ede84..c499a79 100644
--- a/circuitcompiler/gate.go
+++ b/circuitcompiler/gate.go
@@ -58,7 +58,8 @@ func (gate *Gate) setAndGetID() (id string) {
 	//gates of different types on the same inputs are different gates, such as a*b and equal(a,b)
 	typ := sha256.Sum256([]byte{byte(gate.gateType)})
 	lr.Add(lr, new(big.Int).SetBytes(typ[:]))
-	gate.identifier = new(big.Int).Xor(lr, eo).String()[:16]
+	//the identifier is the entire hash. for a few digits of it, different gates with the same identifier can be found
+	gate.identifier = new(big.Int).Xor(lr, eo).String()
 	return gate.identifier
 }
 func (gate *Gate) minimizeR1CSDescriptiveComplexity() {
-- 
2.43.0


From fd8f6b2c2f592ad149b5527692bff966466d5030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:35 +0000
Subject: [PATCH 35/39] fix: the verifier accepted public signals whose first
 one is not 1, with 0 for any claim

---
 zkSNARK/wol19.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zkSNARK/wol19.go b/zkSNARK/wol19.go
index e9d5d29..7c939fa 100644
--- a/zkSNARK/wol19.go
+++ b/zkSNARK/wol19.go
@@ -468,6 +468,12 @@ func VerifyProof(pk *Pk, proof *Proof, publicSignals []*big.Int, debug bool) boo
 		return false
 	}
 
+	//the first signal is the constant one. for any other value, the constants of the program would be scaled by it
+	if utils.Field.ArithmeticField.Affine(publicSignals[0]).Cmp(big.NewInt(1)) != 0 {
+		fmt.Println("❌ wolf19 verification not passed. The first signal has to be 1")
+		return false
+	}
+
 	icPubl := new(bn256.G1).ScalarMult(pk.G1.RLEO_Gamma[0], publicSignals[0])
 	for i := 1; i < len(publicSignals); i++ {
 		icPubl.Add(icPubl, new(bn256.G1).ScalarMult(pk.G1.RLEO_Gamma[i], publicSignals[i]))
-- 
2.43.0


From 2a2f9b9fa96933f30820d4ac6d83d28c77b7492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 36/39] fix: without any exponent in the program, the verifier
 accepted any element F, which shifts all constraints

---
 zkSNARK/wol19.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/zkSNARK/wol19.go b/zkSNARK/wol19.go
index 7c939fa..97c2f14 100644
--- a/zkSNARK/wol19.go
+++ b/zkSNARK/wol19.go
@@ -459,6 +459,20 @@ func GenerateProof_Sparse(publicInputs int, provingKey *Pk, witnessTrace []*big.
 	return proof, nil
 }
 
+func isInfinity(p *bn256.G1) bool {
+	return bytes.Equal(p.Marshal(), g1ScalarBaseMultiply(big.NewInt(0)).Marshal())
+}
+
+//hasExtension returns true if some gate of the program uses the exponent
+func (pk *Pk) hasExtension() bool {
+	for _, e := range pk.G1.Ex {
+		if !isInfinity(e) {
+			return true
+		}
+	}
+	return false
+}
+
 // VerifyProof verifies over the BN256 the Pairings of the Proof
 func VerifyProof(pk *Pk, proof *Proof, publicSignals []*big.Int, debug bool) bool {
 	//note that the trivial cases should be rejected to
@@ -474,6 +488,12 @@ func VerifyProof(pk *Pk, proof *Proof, publicSignals []*big.Int, debug bool) boo
 		return false
 	}
 
+	//without any g^ gate there is nothing to exponentiate. any other F would shift all constraints
+	if !pk.hasExtension() && !isInfinity(proof.PiF) {
+		fmt.Println("❌ wolf19 verification not passed. The program does not use the extension, but the proof does")
+		return false
+	}
+
 	icPubl := new(bn256.G1).ScalarMult(pk.G1.RLEO_Gamma[0], publicSignals[0])
 	for i := 1; i < len(publicSignals); i++ {
 		icPubl.Add(icPubl, new(bn256.G1).ScalarMult(pk.G1.RLEO_Gamma[i], publicSignals[i]))
-- 
2.43.0


From df1825d0edd09843e1cf180198c5b0abf98932fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 37/39] fix: multiplication by a negative scalar used the bits
 of its two's complement

---
 pairing/curve.go | 6 ++++++
 pairing/gfp12.go | 5 +++++
 pairing/twist.go | 6 ++++++
 3 files changed, 17 insertions(+)

diff --git a/pairing/curve.go b/pairing/curve.go
index 948329e..81f3c46 100644
--- a/pairing/curve.go
+++ b/pairing/curve.go
@@ -227,6 +227,12 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
 }
 
 func (c *curvePoint) Mul(a *curvePoint, scalar *big.Int, pool *bnPool) *curvePoint {
+	if scalar.Sign() < 0 {
+		//the bits of a negative number are not those of its absolute value
+		c.Mul(a, new(big.Int).Neg(scalar), pool)
+		c.y.Neg(c.y)
+		return c
+	}
 	sum := newCurvePoint(pool)
 	sum.SetInfinity()
 	t := newCurvePoint(pool)
diff --git a/pairing/gfp12.go b/pairing/gfp12.go
index f084edd..a6172ea 100644
--- a/pairing/gfp12.go
+++ b/pairing/gfp12.go
@@ -131,6 +131,11 @@ func (e *gfP12) MulScalar(a *gfP12, b *gfP6, pool *bnPool) *gfP12 {
 }
 
 func (c *gfP12) Exp(a *gfP12, power *big.Int, pool *bnPool) *gfP12 {
+	if power.Sign() < 0 {
+		//the bits of a negative number are not those of its absolute value
+		c.Exp(a, new(big.Int).Neg(power), pool)
+		return c.Invert(c, pool)
+	}
 	sum := newGFp12(pool)
 	sum.SetOne()
 	t := newGFp12(pool)
diff --git a/pairing/twist.go b/pairing/twist.go
index a57eba9..1c55b09 100644
--- a/pairing/twist.go
+++ b/pairing/twist.go
@@ -207,6 +207,12 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
 }
 
 func (c *twistPoint) Mul(a *twistPoint, scalar *big.Int, pool *bnPool) *twistPoint {
+	if scalar.Sign() < 0 {
+		//the bits of a negative number are not those of its absolute value
+		c.Mul(a, new(big.Int).Neg(scalar), pool)
+		c.y.Negative(c.y)
+		return c
+	}
 	sum := newTwistPoint(pool)
 	sum.SetInfinity()
 	t := newTwistPoint(pool)
-- 
2.43.0


From 4a24c9585c8727655b0bb212908fa931e06c9c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:54 +0000
Subject: [PATCH 38/39] fix: the caches of Lagrange bases are shared by all
 users of a field, guard them

---
 utils/finiteField.go      | 4 ++++
 utils/polynomialField.go  | 7 ++++++-
 utils/sparsePolynomial.go | 7 ++++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/utils/finiteField.go b/utils/finiteField.go
index 0103628..5fc45f9 100644
--- a/utils/finiteField.go
+++ b/utils/finiteField.go
@@ -5,6 +5,7 @@ import (
 	"crypto/rand"
 	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
 	"math/big"
+	"sync"
 )
 
 type Fields struct {
@@ -33,6 +34,9 @@ type baseLengthPair struct {
 	baseIndex, Length int
 }
 
+//basesMutex guards the caches of Lagrange bases, which all users of a field share
+var basesMutex sync.RWMutex
+
 // Fq is the Z field over modulus Q
 type Fq struct {
 	Q            *big.Int // Q
diff --git a/utils/polynomialField.go b/utils/polynomialField.go
index c83a5ec..6af7c5d 100644
--- a/utils/polynomialField.go
+++ b/utils/polynomialField.go
@@ -206,7 +206,10 @@ func (pf PolynomialField) LagrangeInterpolation(datapoints []*big.Int) (polynom
 
 	var base = func(pointPos, totalPoints int) (r []*big.Int) {
 
-		if v, ex := pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]; ex {
+		basesMutex.RLock()
+		v, ex := pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]
+		basesMutex.RUnlock()
+		if ex {
 			return v
 		}
 		facBig := big.NewInt(1)
@@ -226,7 +229,9 @@ func (pf PolynomialField) LagrangeInterpolation(datapoints []*big.Int) (polynom
 			}
 		}
 		r = pf.MulScalar(r, hf)
+		basesMutex.Lock()
 		pf.F.basesClassic[baseLengthPair{baseIndex: pointPos, Length: totalPoints}] = r
+		basesMutex.Unlock()
 		return r
 	}
 	//if IsZeroArray(datapoints){
diff --git a/utils/sparsePolynomial.go b/utils/sparsePolynomial.go
index 68de3a5..e34e545 100644
--- a/utils/sparsePolynomial.go
+++ b/utils/sparsePolynomial.go
@@ -137,7 +137,10 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 	}
 	var base = func(pointPos, totalPoints int) (r *AvlTree) {
 
-		if v, ex := f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]; ex {
+		basesMutex.RLock()
+		v, ex := f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}]
+		basesMutex.RUnlock()
+		if ex {
 			return v
 		}
 		//r = NewAvlTree()
@@ -158,7 +161,9 @@ func (f Fq) InterpolateSparseArray(dataArray *AvlTree, degree int) (polynom *Avl
 		}
 		hf := f.Inverse(facBig)
 		r = f.MulSparseScalar(r, hf)
+		basesMutex.Lock()
 		f.bases[baseLengthPair{baseIndex: pointPos, Length: totalPoints}] = r
+		basesMutex.Unlock()
 		return r
 	}
 	//if  IsZeroArray(dataArray.ToArray(degree)){
-- 
2.43.0


From 48e400783826e7c4b756f3caf6256f89ff96ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:26 +0000
Subject: [PATCH 39/39] fix: the verifier normalised the points of the key it
 was given, which others may be using

---
 zkSNARK/wol19.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zkSNARK/wol19.go b/zkSNARK/wol19.go
index 97c2f14..95bdebb 100644
--- a/zkSNARK/wol19.go
+++ b/zkSNARK/wol19.go
@@ -460,7 +460,9 @@ func GenerateProof_Sparse(publicInputs int, provingKey *Pk, witnessTrace []*big.
 }
 
 func isInfinity(p *bn256.G1) bool {
-	return bytes.Equal(p.Marshal(), g1ScalarBaseMultiply(big.NewInt(0)).Marshal())
+	//a copy, since Marshal normalises the point it is called on, and keys may be in use elsewhere at the same time
+	infinity := g1ScalarBaseMultiply(big.NewInt(0))
+	return bytes.Equal(new(bn256.G1).Add(p, infinity).Marshal(), infinity.Marshal())
 }
 
 //hasExtension returns true if some gate of the program uses the exponent
-- 
2.43.0

