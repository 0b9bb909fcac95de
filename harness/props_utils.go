package main

// U01..U08: the field, the dense and sparse polynomial layers, the ordered map.

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"pgregory.net/rapid"
)

var fieldPrimes = []*big.Int{refN, refN, refN, refN, bi("2"), bi("3"), bi("7"), bi("601"), bi("65537"), bi("2305843009213693951"), refP}

// genInt draws any integer, also negative and far above the modulus.
func genInt(t *rapid.T, q *big.Int, label string) *big.Int {
	v := genBelow(t, q, label)
	switch rapid.IntRange(0, 5).Draw(t, label+".s") {
	case 0:
		v.Neg(v)
	case 1:
		v.Add(v, new(big.Int).Mul(q, big.NewInt(int64(rapid.IntRange(0, 3).Draw(t, label+".m")))))
	case 2:
		v.Sub(v, new(big.Int).Mul(q, big.NewInt(int64(rapid.IntRange(0, 3).Draw(t, label+".m")))))
	}
	return v
}

type fieldCase struct {
	Q, A, B, C, E string
	X, Y          []string
}

func genFieldCase(t *rapid.T) fieldCase {
	q := fieldPrimes[rapid.IntRange(0, len(fieldPrimes)-1).Draw(t, "q")]
	c := fieldCase{Q: q.String(), A: genInt(t, q, "a").String(), B: genInt(t, q, "b").String(), C: genBelow(t, q, "c").String()}
	e := genBelow(t, new(big.Int).Lsh(big.NewInt(1), 300), "e")
	switch rapid.IntRange(0, 4).Draw(t, "ek") {
	case 0:
		e = new(big.Int).Add(q, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "ed"))))
	case 1:
		e = new(big.Int).Mul(q, big.NewInt(int64(rapid.IntRange(1, 3).Draw(t, "em"))))
	}
	c.E = e.String()
	n := rapid.IntRange(0, upTo(t, 6, 40)).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.X = append(c.X, genInt(t, q, "x").String())
		c.Y = append(c.Y, genInt(t, q, "y").String())
	}
	return c
}

func runFieldCase(c *fieldCase, r *R) {
	q, a, b, k, e := bi(c.Q), bi(c.A), bi(c.B), bi(c.C), bi(c.E)
	F := utils.NewFq(q)
	m := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, q) }
	chk := func(op string, got, want *big.Int) {
		if got == nil || got.Cmp(want) != 0 {
			r.Failf("%s with a=%v b=%v e=%v mod %v = %v, want %v", op, a, b, e, q, got, want)
		}
	}
	chk("Add", F.Add(a, b), m(new(big.Int).Add(a, b)))
	chk("Sub", F.Sub(a, b), m(new(big.Int).Sub(a, b)))
	chk("Mul", F.Mul(a, b), m(new(big.Int).Mul(a, b)))
	chk("MulScalar", F.MulScalar(a, b), m(new(big.Int).Mul(a, b)))
	chk("Neg", F.Neg(a), m(new(big.Int).Neg(a)))
	chk("Double", F.Double(a), m(new(big.Int).Lsh(a, 1)))
	chk("Square", F.Square(a), m(new(big.Int).Mul(a, a)))
	chk("Copy", F.Copy(a), m(a))
	chk("Affine", F.Affine(a), m(a))
	chk("Exp", F.Exp(a, e), m(new(big.Int).Exp(m(a), e, q)))
	ei := uint(new(big.Int).And(e, big.NewInt(1<<40-1)).Uint64())
	chk("ExpInt", F.ExpInt(a, ei), m(new(big.Int).Exp(m(a), new(big.Int).SetUint64(uint64(ei)), q)))
	chk("Zero", F.Zero(), new(big.Int))
	chk("One", F.One(), big.NewInt(1))
	if m(b).Sign() != 0 {
		inv := new(big.Int).ModInverse(m(b), q)
		chk("Inverse", m(F.Inverse(b)), inv)
		chk("Div", F.Div(a, b), m(new(big.Int).Mul(a, inv)))
		chk("Exp to the negative", F.Exp(b, new(big.Int).Neg(e)), m(new(big.Int).Exp(inv, e, q)))
		r.NonTrivial()
	}
	if got, want := F.Equal(a, b), m(a).Cmp(m(b)) == 0; got != want {
		r.Failf("Equal(%v,%v) mod %v = %v", a, b, q, got)
	}
	sh := new(big.Int).Add(a, new(big.Int).Mul(q, big.NewInt(2)))
	if !F.Equal(a, sh) || !F.Equal(sh, a) {
		r.Failf("Equal(%v,%v) mod %v = false", a, sh, q)
	}
	if got, want := F.IsZero(k), k.Sign() == 0; got != want {
		r.Failf("IsZero(%v) = %v", k, got)
	}
	v, ok := F.StringToFieldElement(c.A)
	if !ok || v.Cmp(m(a)) != 0 {
		r.Failf("StringToFieldElement(%v) = %v %v", c.A, v, ok)
	}
	for _, bad := range []string{"", "x" + c.A, c.A + "z"} {
		if _, ok := F.StringToFieldElement(bad); ok {
			r.Failf("StringToFieldElement(%q) reports success", bad)
		}
	}
	xs, ys := bigs(c.X), bigs(c.Y)
	s := new(big.Int)
	for i := range xs {
		s = m(s.Add(s, new(big.Int).Mul(xs[i], ys[i])))
	}
	chk("ScalarProduct", F.ScalarProduct(xs, ys), s)
	if q.BitLen() > 200 {
		x, err := F.Rand()
		if err != nil || x.Sign() < 0 || x.Cmp(q) >= 0 {
			r.Failf("Rand = %v %v", x, err)
		}
	}
	r.LabelIf(q.Cmp(refN) != 0, "other modulus")
	r.LabelIf(a.Sign() < 0 || b.Sign() < 0, "negative operand")
	r.LabelIf(e.Cmp(q) >= 0, "exponent >= modulus")
}

// ---- polynomials ----

func genDense(t *rapid.T, label string, lo, hi int) []string {
	n := rapid.IntRange(lo, hi).Draw(t, label+".len")
	out := make([]string, n)
	for i := range out {
		if rapid.IntRange(0, 3).Draw(t, label+".z") == 0 {
			out[i] = "0"
		} else {
			out[i] = genField(t, label).String()
		}
	}
	return out
}

type spoly struct {
	K []uint64
	V []string
}

func (s spoly) poly() poly {
	p := poly{}
	for i := range s.K {
		p[s.K[i]] = bi(s.V[i])
	}
	return p
}
func (s spoly) tree() *utils.AvlTree {
	t := utils.NewAvlTree()
	for i := range s.K {
		t.Insert(uint(s.K[i]), bi(s.V[i]))
	}
	return t
}
func genSparse(t *rapid.T, label string, lo, hi int, maxExp uint64) spoly {
	n := rapid.IntRange(lo, hi).Draw(t, label+".n")
	seen := map[uint64]bool{}
	var s spoly
	for i := 0; i < n; i++ {
		var k uint64
		if rapid.Bool().Draw(t, label+".sm") {
			k = rapid.Uint64Range(0, 12).Draw(t, label+".e")
		} else {
			k = rapid.Uint64Range(0, maxExp).Draw(t, label+".e")
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		s.K = append(s.K, k)
		s.V = append(s.V, genNZ(t, label+".c").String())
	}
	return s
}

var PF = utils.Field.PolynomialField
var FQ = utils.Field.ArithmeticField

// polyFields are the fields of the polynomial properties: the library's, mostly, and others with their own caches, which
// live as long as the process.
var polyFields = []*big.Int{refN, bi("601"), bi("17"), bi("2305843009213693951"), bi("65537"), refP}
var fieldOf = map[int]utils.Fields{}

type overField[T any] struct {
	Q int
	C T
}

func inField(q int, f func()) {
	if q == 0 {
		f()
		return
	}
	fs, ok := fieldOf[q]
	if !ok {
		fs = utils.PrepareFields(new(big.Int).Set(polyFields[q]))
		fieldOf[q] = fs
	}
	n, pf, fq := refN, PF, FQ
	defer func() { refN, PF, FQ = n, pf, fq }()
	refN, PF, FQ = polyFields[q], fs.PolynomialField, fs.ArithmeticField
	f()
}

// overFields runs a check over the fields above.
func overFields[T any](name, rule string, quick, thorough int, gen func(t *rapid.T) T, run func(c *T, r *R)) Sub {
	return mk(name, rule, quick, thorough, func(t *rapid.T) overField[T] {
		c := overField[T]{}
		if k := rapid.IntRange(0, 2*len(polyFields)).Draw(t, "field"); k < len(polyFields) {
			c.Q = k
		}
		inField(c.Q, func() { c.C = gen(t) })
		return c
	}, func(c *overField[T], r *R) {
		r.LabelIf(c.Q != 0, "other field")
		inField(c.Q, func() { run(&c.C, r) })
	})
}

// upTo is hi, or rarely something larger.
func upTo(t *rapid.T, hi, large int) int {
	switch rapid.IntRange(0, 299).Draw(t, "large") {
	case 17, 18, 19, 20, 21, 22, 23:
		return large
	case 117:
		return 4 * large
	}
	return hi
}

func canon(r *R, what string, ps ...[]*big.Int) {
	for _, p := range ps {
		for i, v := range p {
			if v == nil || v.Sign() < 0 || v.Cmp(refN) >= 0 {
				r.Failf("%s: coefficient %d is not a reduced field element: %v", what, i, v)
			}
		}
	}
}
func wantDense(r *R, what string, got []*big.Int, want poly) {
	canon(r, what, got)
	if !pEq(denseToPoly(got), want) {
		r.Failf("%s = %v, want %v", what, denseToPoly(got), want)
	}
}
func wantSparse(r *R, what string, got *utils.AvlTree, want poly) {
	for _, e := range got.DecendingNodes() {
		if e.Value.Sign() <= 0 || e.Value.Cmp(refN) >= 0 {
			r.Failf("%s: stored coefficient of x^%d is zero or not reduced: %v", what, e.Key, e.Value)
		}
	}
	if !pEq(treeToPoly(got), want) {
		r.Failf("%s = %v, want %v", what, treeToPoly(got), want)
	}
}

type denseCase struct {
	A, B, C []string
	S       string
	W       []string
}

func genDenseCase(t *rapid.T) denseCase {
	n := upTo(t, 9, 50)
	return denseCase{A: genDense(t, "a", 1, n), B: genDense(t, "b", 1, n), C: genDense(t, "c", 1, 9),
		S: genField(t, "s").String(), W: []string{genField(t, "w0").String(), genField(t, "w1").String(), genField(t, "w2").String()}}
}
func runDenseCase(c *denseCase, r *R) {
	a, b, d, s, w := bigs(c.A), bigs(c.B), bigs(c.C), bi(c.S), bigs(c.W)
	pa, pb, pd := denseToPoly(a), denseToPoly(b), denseToPoly(d)
	wantDense(r, "Add", PF.Add(a, b), pAdd(pa, pb))
	wantDense(r, "Sub", PF.Sub(a, b), pSub(pa, pb))
	wantDense(r, "Mul", PF.Mul(a, b), pMul(pa, pb))
	wantDense(r, "Mul commuted", PF.Mul(b, a), pMul(pa, pb))
	wantDense(r, "MulScalar", PF.MulScalar(a, s), pScale(pa, s))
	wantDense(r, "Add empty", PF.Add(a, nil), pa)
	wantDense(r, "Sub empty", PF.Sub(nil, a), pScale(pa, big.NewInt(-1)))
	wantDense(r, "AddPolynomials", PF.AddPolynomials([][]*big.Int{a, b, d}), pAdd(pAdd(pa, pb), pd))
	lc := PF.LinearCombine([][]*big.Int{a, b, d}, w)
	if len(lc) != 3 {
		r.Failf("LinearCombine returns %d polynomials", len(lc))
	}
	for i, p := range []poly{pa, pb, pd} {
		wantDense(r, fmt.Sprintf("LinearCombine[%d]", i), lc[i], pScale(p, w[i]))
	}
	// ring laws through the code alone
	l1 := PF.Mul(a, PF.Add(b, d))
	l2 := PF.Add(PF.Mul(a, b), PF.Mul(a, d))
	if !pEq(denseToPoly(l1), denseToPoly(l2)) {
		r.Failf("distributivity")
	}
	if utils.IsZeroArray(a) != (len(pa) == 0) {
		r.Failf("IsZeroArray(%v)", a)
	}
	if utils.BigArraysEqual(a, b) != eqBigs(a, b) || !utils.BigArraysEqual(a, bigs(c.A)) {
		r.Failf("BigArraysEqual(%v,%v)", a, b)
	}
	if len(a) == len(b) {
		tr := utils.Transpose([][]*big.Int{a, b})
		for i := range a {
			if tr[i][0].Cmp(a[i]) != 0 || tr[i][1].Cmp(b[i]) != 0 {
				r.Failf("Transpose")
			}
		}
		r.Label("transpose")
	}
	r.NonTrivialIf(len(pa) > 1 && len(pb) > 1)
	r.LabelIf(len(pa) == 0 || len(pb) == 0, "zero polynomial")
	r.LabelIf(len(a) != len(b), "different lengths")
	r.LabelIf(a[len(a)-1].Sign() == 0, "zero leading coefficient")
}

type sparseCase struct {
	A, B, C spoly
	S       string
	W       []string
	Vec     []string
	H       []spoly // of high degrees
}

// related is a polynomial with the same exponents: coefficients kept, negated, or changed, some terms left out.
func (s spoly) related(t *rapid.T) spoly {
	var o spoly
	for i, k := range s.K {
		v := bi(s.V[i])
		switch rapid.IntRange(0, 3).Draw(t, "rel") {
		case 0:
			v = fSub(new(big.Int), v)
		case 1:
			continue
		case 2:
			if rapid.Bool().Draw(t, "relnew") {
				v = genNZ(t, "relv")
			}
		}
		o.K, o.V = append(o.K, k), append(o.V, v.String())
	}
	return o
}

func genSparseCase(t *rapid.T) sparseCase {
	n := upTo(t, 14, 45)
	c := sparseCase{A: genSparse(t, "a", 0, n, uint64(4*n+4)), B: genSparse(t, "b", 0, n-4, uint64(4*n+4)), C: genSparse(t, "c", 0, 6, 60),
		S: genField(t, "s").String(), W: []string{genField(t, "w0").String(), genField(t, "w1").String(), genField(t, "w2").String()}}
	if rapid.IntRange(0, 2).Draw(t, "related") == 0 {
		c.B = c.A.related(t)
	}
	c.H = []spoly{genSparse(t, "h", 0, 8, 1<<62), genSparse(t, "h", 0, 8, 1<<62)}
	if rapid.Bool().Draw(t, "relatedhigh") {
		c.H[1] = c.H[0].related(t)
	}
	top := max(60, 4*n+4) // related polynomials may have higher exponents
	for _, p := range []spoly{c.A, c.B} {
		for _, k := range p.K {
			top = max(top, int(k))
		}
	}
	for i := 0; i <= top; i++ {
		c.Vec = append(c.Vec, "0")
	}
	for i := 0; i < top/2; i++ {
		c.Vec[rapid.IntRange(0, top).Draw(t, "vi")] = genField(t, "v").String()
	}
	return c
}
func runSparseCase(c *sparseCase, r *R) {
	a, b, d, s, w := c.A.tree(), c.B.tree(), c.C.tree(), bi(c.S), bigs(c.W)
	pa, pb, pd := c.A.poly(), c.B.poly(), c.C.poly()
	wantSparse(r, "tree", a, pa)
	wantSparse(r, "AddToSparse", FQ.AddToSparse(a, b), pAdd(pa, pb))
	wantSparse(r, "SubToSparse", FQ.SubToSparse(a, b), pSub(pa, pb))
	wantSparse(r, "SubToSparse self", FQ.SubToSparse(a, a), poly{})
	wantSparse(r, "MulSparse", FQ.MulSparse(a, b), pMul(pa, pb))
	wantSparse(r, "MulSparse commuted", FQ.MulSparse(b, a), pMul(pa, pb))
	wantSparse(r, "MulSparse square", FQ.MulSparse(a, a), pMul(pa, pa))
	for i, x := range []*big.Int{s, new(big.Int), big.NewInt(1)} {
		wantSparse(r, fmt.Sprintf("MulSparseScalar %d", i), FQ.MulSparseScalar(a, x), pScale(pa, x))
	}
	wantSparse(r, "Clone", a.Clone(), pa)
	if len(c.H) == 2 {
		h, g, ph, pg := c.H[0].tree(), c.H[1].tree(), c.H[0].poly(), c.H[1].poly()
		wantSparse(r, "high AddToSparse", FQ.AddToSparse(h, g), pAdd(ph, pg))
		wantSparse(r, "high SubToSparse", FQ.SubToSparse(h, g), pSub(ph, pg))
		wantSparse(r, "high SubToSparse reversed", FQ.SubToSparse(g, h), pSub(pg, ph))
		wantSparse(r, "high MulSparse", FQ.MulSparse(h, g), pMul(ph, pg))
		wantSparse(r, "high MulSparseScalar", FQ.MulSparseScalar(h, s), pScale(ph, s))
	}
	for i, v := range c.A.K {
		if i < 3 {
			one := utils.NewSparseArrayWith(uint(v), bi(c.A.V[i]))
			wantSparse(r, "NewSparseArrayWith", one, poly{v: bi(c.A.V[i])})
			wantSparse(r, "MulSparse by one term", FQ.MulSparse(a, one), pMul(pa, poly{v: bi(c.A.V[i])}))
			wantSparse(r, "SubToSparse of one term", FQ.SubToSparse(a, one), pSub(pa, poly{v: bi(c.A.V[i])}))
		}
	}
	wantSparse(r, "AddPolynomials", FQ.AddPolynomials([]*utils.AvlTree{a, b, d}), pAdd(pAdd(pa, pb), pd))
	lc := FQ.LinearCombine([]*utils.AvlTree{a, b, d}, w)
	for i, p := range []poly{pa, pb, pd} {
		wantSparse(r, fmt.Sprintf("LinearCombine[%d]", i), lc[i], pScale(p, w[i]))
	}
	// dot product and weights
	vec := bigs(c.Vec)
	sum := new(big.Int)
	h := poly{}
	for k, v := range pa {
		sum = fAdd(sum, fMul(v, vec[k]))
		h.add(k, fMul(v, vec[k]))
	}
	if got := FQ.SparseScalarProduct(a, vec); got.Cmp(sum) != 0 {
		r.Failf("SparseScalarProduct = %v, want %v", got, sum)
	}
	wantSparse(r, "Combine", FQ.Combine(a.Clone(), vec), h)
	// dense view
	arr := a.ToArray(len(vec))
	if len(arr) != len(vec) || !pEq(denseToPoly(arr), pa) {
		r.Failf("ToArray = %v, want %v", arr, pa)
	}
	wantSparse(r, "NewSparseArrayFromArray", utils.NewSparseArrayFromArray(arr), pa)
	// transposition
	rows := []*utils.AvlTree{a, b, d}
	tr := utils.TransposeSparse(rows, len(vec))
	for col := range vec {
		want := poly{}
		for y, p := range []poly{pa, pb, pd} {
			if v, ok := p[uint64(col)]; ok {
				want.add(uint64(y), v)
			}
		}
		wantSparse(r, fmt.Sprintf("TransposeSparse[%d]", col), tr[col], want)
	}
	r.NonTrivialIf(len(pa) > 2 && len(pb) > 2)
	r.LabelIf(len(pa) == 0 || len(pb) == 0, "zero polynomial")
	r.LabelIf(len(h) < len(pa), "zero weight")
}

// ---- division ----

type divCase struct {
	A, B, Q, R []string
	Exact      bool
	S          []spoly // dividend and divisor of high degree
}

func genDivCase(t *rapid.T) divCase {
	c := divCase{Exact: rapid.Bool().Draw(t, "exact")}
	c.A = genDense(t, "a", 1, upTo(t, 12, 60))
	c.B = genDense(t, "b", 1, upTo(t, 7, 30))
	if denseToPoly(bigs(c.B)).deg() < 0 {
		c.B[rapid.IntRange(0, len(c.B)-1).Draw(t, "bi")] = genNZ(t, "bn").String()
	}
	c.Q = genDense(t, "q", 1, upTo(t, 6, 30))
	// quotients with few terms: the divisor has its degree at least near the dividend's, or is a binomial
	s := genSparse(t, "sa", 1, 5, 400)
	d := genSparse(t, "sb", 1, 3, 40)
	for i := range s.K {
		if rapid.Bool().Draw(t, "lift") {
			s.K[i] += uint64(1+i) * 1000
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "near") == 0 {
		d.K[0] = 1000
	}
	c.S = []spoly{s, d}
	return c
}
func runDivCase(c *divCase, r *R) {
	b := bigs(c.B)
	pb := denseToPoly(b)
	a := bigs(c.A)
	pa := denseToPoly(a)
	if c.Exact {
		pa = pMul(pb, denseToPoly(bigs(c.Q)))
		a = make([]*big.Int, len(c.B)+len(c.Q)-1)
		for i := range a {
			a[i] = new(big.Int)
			if v, ok := pa[uint64(i)]; ok {
				a[i].Set(v)
			}
		}
	}
	exact := c.Exact
	check := func(what string, q, rem poly) {
		if !pEq(pAdd(pMul(q, pb), rem), pa) {
			r.Failf("%s: quotient %v and remainder %v do not recombine to %v / %v", what, q, rem, pa, pb)
		}
		if rem.deg() >= pb.deg() {
			r.Failf("%s: remainder %v has degree not below the divisor %v", what, rem, pb)
		}
		if exact && len(rem) != 0 {
			r.Failf("%s: exact division leaves %v", what, rem)
		}
	}
	q, rem := PF.Div(a, b)
	canon(r, "Div", q, rem)
	check("Div", denseToPoly(q), denseToPoly(rem))
	sq, srem := FQ.DivideSparse(polyToTree(pa), polyToTree(pb))
	check("DivideSparse", treeToPoly(sq), treeToPoly(srem))
	wantSparse(r, "DivideSparse quotient", sq, treeToPoly(sq))
	wantSparse(r, "DivideSparse remainder", srem, treeToPoly(srem))
	r.NonTrivialIf(pa.deg() >= pb.deg() && pb.deg() >= 1 && len(pb) > 1)
	defer func() {
		if len(c.S) == 2 {
			pa, pb = c.S[0].poly(), c.S[1].poly()
			if (pa.deg()-pb.deg())*int64(len(pb)) > 1000 && len(pb) > 1 {
				pb = poly{0: pb[uint64(pb.deg())], uint64(pb.deg()) + 700: big.NewInt(1)}
			}
			exact = false
			sq, srem = FQ.DivideSparse(polyToTree(pa), polyToTree(pb))
			check("sparse DivideSparse", treeToPoly(sq), treeToPoly(srem))
			exact = true
			pa = pMul(pa, pb)
			sq, srem = FQ.DivideSparse(polyToTree(pa), polyToTree(pb))
			check("exact sparse DivideSparse", treeToPoly(sq), treeToPoly(srem))
		}
	}()
	r.LabelIf(pa.deg() < pb.deg(), "dividend of smaller degree")
	r.LabelIf(pb.deg() == 0, "constant divisor")
	r.LabelIf(len(pa) == 0, "zero dividend")
	r.LabelIf(int64(len(c.B)) > pb.deg()+1, "padded divisor")
	r.LabelIf(c.Exact, "exact")
}

// ---- interpolation ----

type interpCase struct {
	Sets [][]string // several, in one history: the basis polynomials are cached
	X    string
	N    int
}

func genInterpCase(t *rapid.T) interpCase {
	k := rapid.IntRange(1, 3).Draw(t, "k")
	c := interpCase{X: genField(t, "x").String(), N: rapid.IntRange(1, 14).Draw(t, "dom")}
	hi := 14
	if refN.BitLen() > 8 {
		hi = upTo(t, 14, 45)
	}
	n := rapid.IntRange(1, hi).Draw(t, "n")
	for i := 0; i < k; i++ {
		if rapid.Bool().Draw(t, "vary") {
			n = rapid.IntRange(1, hi).Draw(t, "n")
		}
		c.Sets = append(c.Sets, genDense(t, "d", n, n))
	}
	return c
}
func runInterpCase(c *interpCase, r *R) {
	for _, s := range c.Sets {
		d := bigs(s)
		n := len(d)
		nz := 0
		p := PF.LagrangeInterpolation(d)
		canon(r, "LagrangeInterpolation", p)
		if len(p) > n {
			r.Failf("interpolation of %d points has %d coefficients", n, len(p))
		}
		sp := FQ.InterpolateSparseArray(utils.NewSparseArrayFromArray(d), n)
		pp, ps := denseToPoly(p), treeToPoly(sp)
		if ps.deg() >= int64(n) {
			r.Failf("sparse interpolation of %d points has degree %d", n, ps.deg())
		}
		for i := range d {
			if d[i].Sign() != 0 {
				nz++
			}
			x := big.NewInt(int64(i))
			if v := pEval(pp, x); v.Cmp(d[i]) != 0 {
				r.Failf("interpolation of %v: value %v at %d", d, v, i)
			}
			if v := pEval(ps, x); v.Cmp(d[i]) != 0 {
				r.Failf("sparse interpolation of %v: value %v at %d", d, v, i)
			}
			b := denseToPoly(PF.NewPolZeroAt(i, n, d[i]))
			if b.deg() >= int64(n) {
				r.Failf("NewPolZeroAt degree %d for %d points", b.deg(), n)
			}
			for j := range d {
				want := new(big.Int)
				if j == i {
					want = d[i]
				}
				if v := pEval(b, big.NewInt(int64(j))); v.Cmp(want) != 0 {
					r.Failf("NewPolZeroAt(%d,%d,%v) is %v at %d", i, n, d[i], v, j)
				}
			}
		}
		r.NonTrivialIf(nz >= 2)
		r.LabelIf(nz == 0, "all zero")
		r.LabelIf(n == 1, "single point")
	}
	dom := PF.DomainPolynomial(c.N)
	want := poly{0: big.NewInt(1)}
	for i := 0; i < c.N; i++ {
		want = pMul(want, poly{}.with(1, 1).with(0, -int64(i)))
	}
	wantDense(r, "DomainPolynomial", dom, want)
	r.LabelIf(len(c.Sets) > 1, "several interpolations")
}
func (p poly) with(k uint64, v int64) poly { p.add(k, big.NewInt(v)); return p }

// ---- evaluation ----

type evalCase struct {
	A []string
	S spoly
	X string
}

func genEvalCase(t *rapid.T) evalCase {
	return evalCase{A: genDense(t, "a", 1, upTo(t, 14, 200)), S: genSparse(t, "s", 0, upTo(t, 12, 80), []uint64{1 << 20, 60, 1 << 34, 1<<63 - 1}[rapid.IntRange(0, 3).Draw(t, "span")]), X: genField(t, "x").String()}
}
func runEvalCase(c *evalCase, r *R) {
	x := bi(c.X)
	a := bigs(c.A)
	if got, want := FQ.EvalPoly(a, x), pEval(denseToPoly(a), x); modN(got).Cmp(want) != 0 {
		r.Failf("EvalPoly(%v,%v) = %v, want %v", a, x, got, want)
	}
	p := c.S.poly()
	if got, want := FQ.EvalSparsePoly(c.S.tree(), x), pEval(p, x); got.Cmp(want) != 0 {
		r.Failf("EvalSparsePoly(%v,%v) = %v, want %v", p, x, got, want)
	}
	if got, want := FQ.EvalSparsePoly(utils.NewSparseArrayFromArray(a), x), pEval(denseToPoly(a), x); got.Cmp(want) != 0 {
		r.Failf("EvalSparsePoly of dense %v at %v = %v, want %v", a, x, got, want)
	}
	r.NonTrivialIf(x.Sign() != 0 && len(p) > 1 && len(a) > 2)
	r.LabelIf(x.Sign() == 0, "at zero")
	r.LabelIf(len(p) == 0, "empty sparse")
	r.LabelIf(p.deg() > 1000, "high degree")
}

// ---- ordered map ----

type avlOp struct {
	Op string
	K  uint
	V  string
}
type avlCase struct {
	Ops  []avlOp
	From []string // the tree starts as the sparse form of these values
	Skip int      // the full comparison is made after every (Skip+1)-th operation
}

func genAvlCase(t *rapid.T) avlCase {
	span := rapid.SampledFrom([]uint{6, 20, 200, 1 << 40, 1<<64 - 2}).Draw(t, "span")
	hi := 120
	var c avlCase
	if rapid.IntRange(0, 59).Draw(t, "long") == 23 {
		hi, c.Skip = 1500, 49
	}
	n := rapid.IntRange(1, hi).Draw(t, "n")
	asc := rapid.IntRange(0, 3).Draw(t, "asc") == 0
	if rapid.IntRange(0, 3).Draw(t, "from") == 0 {
		c.From = genDense(t, "fromv", 0, 12)
	}
	for i := 0; i < n; i++ {
		o := avlOp{Op: rapid.SampledFrom([]string{"ins", "ins", "ins", "add", "add", "mul", "rm", "rm", "no", "clone", "other", "swap"}).Draw(t, "op")}
		if asc && i < n/2 {
			o.Op, o.K = "ins", uint(i)
		} else {
			o.K = rapid.UintRange(0, span).Draw(t, "k")
		}
		switch rapid.IntRange(0, 5).Draw(t, "vk") {
		case 0:
			o.V = "0"
		case 1:
			o.V = new(big.Int).Sub(refN, big.NewInt(1)).String()
		default:
			o.V = fmt.Sprint(rapid.IntRange(1, 5).Draw(t, "v"))
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func runAvlCase(c *avlCase, r *R) {
	t := utils.NewAvlTree()
	m := map[uint]*big.Int{}
	removed := 0
	if c.From != nil {
		t = utils.NewSparseArrayFromArray(bigs(c.From))
		for i, v := range bigs(c.From) {
			if v.Sign() != 0 {
				m[uint(i)] = v
			}
		}
	}
	// a second map, of a history of its own
	t2, m2 := utils.NewAvlTree(), map[uint]*big.Int{}
	set := func(k uint, v *big.Int) {
		if v.Sign() == 0 {
			if _, ok := m[k]; ok {
				removed++
			}
			delete(m, k)
		} else {
			m[k] = v
		}
	}
	old := func(k uint) *big.Int {
		if v, ok := m[k]; ok {
			return v
		}
		return new(big.Int)
	}
	for i, o := range c.Ops {
		v := bi(o.V)
		switch o.Op {
		case "ins":
			t.Insert(o.K, v)
			set(o.K, v)
		case "add":
			t.Put(o.K, v, FQ.Add)
			set(o.K, fAdd(old(o.K), v))
		case "mul":
			t.Put(o.K, v, FQ.Mul)
			set(o.K, fMul(old(o.K), v))
		case "rm":
			got, err := t.Remove(o.K)
			if _, ok := m[o.K]; ok != (err == nil) {
				r.Failf("op %d: Remove(%d): err %v, present %v", i, o.K, err, ok)
			} else if ok && got.Cmp(m[o.K]) != 0 {
				r.Failf("op %d: Remove(%d) = %v, want %v", i, o.K, got, m[o.K])
			} else if ok {
				removed++
			}
			delete(m, o.K)
		case "no":
			_, present := m[o.K]
			p := panics(func() { t.InsertNoOverwriteAllowed(o.K, v) })
			if p != present {
				r.Failf("op %d: InsertNoOverwriteAllowed(%d) with the key present=%v panics=%v", i, o.K, present, p)
			}
			if !present {
				set(o.K, v)
			}
		case "clone":
			cl := t.Clone()
			cl.Insert(o.K, big.NewInt(77)) // must not show in t
			if _, ok := m[o.K+1]; ok {
				cl.Remove(o.K + 1)
			}
		case "other": // t2 becomes a copy of t and changes
			t2, m2 = t.Clone(), map[uint]*big.Int{}
			for k, v := range m {
				m2[k] = v
			}
			t2.Insert(o.K, v)
			if m2[o.K] = v; v.Sign() == 0 {
				delete(m2, o.K)
			}
		case "swap":
			t, m, t2, m2 = t2, m2, t, m
		}
		if c.Skip == 0 || i%(c.Skip+1) == 0 || i == len(c.Ops)-1 {
			avlAgree(r, t, m, i)
			if o.Op == "other" || i == len(c.Ops)-1 {
				avlAgree(r, t2, m2, i)
			}
		}
	}
	r.LabelIf(len(c.Ops) > 150, "long history")
	r.NonTrivialIf(removed > 0 && len(m) > 2)
	r.LabelIf(removed > 0, "removal")
	r.LabelIf(len(m) > 20, "more than 20 keys")
}
func avlAgree(r *R, t *utils.AvlTree, m map[uint]*big.Int, i int) {
	var ks []uint
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
	if t.Size() != len(ks) {
		r.Failf("op %d: Size %d, want %d", i, t.Size(), len(ks))
	}
	for _, k := range ks {
		v, err := t.Get(k)
		if err != nil || v.Cmp(m[k]) != 0 || !t.Has(k) {
			r.Failf("op %d: Get(%d) = %v %v, want %v", i, k, v, err, m[k])
		}
		if _, ok := m[k+1]; !ok && t.Has(k+1) {
			r.Failf("op %d: Has(%d) for an absent key", i, k+1)
		}
	}
	order := func(what string, got []utils.Entry, asc bool) {
		if len(got) != len(ks) {
			r.Failf("op %d: %s yields %d entries, want %d", i, what, len(got), len(ks))
		}
		for j, e := range got {
			k := ks[j]
			if !asc {
				k = ks[len(ks)-1-j]
			}
			if e.Key != k || e.Value.Cmp(m[k]) != 0 {
				r.Failf("op %d: %s entry %d is (%d,%v), want (%d,%v)", i, what, j, e.Key, e.Value, k, m[k])
			}
		}
	}
	order("DecendingNodes", t.DecendingNodes(), false)
	// the nodes themselves
	var es []utils.Entry
	var walk func(n *utils.AvlNode)
	walk = func(n *utils.AvlNode) {
		if n == nil {
			return
		}
		walk(n.Left())
		es = append(es, utils.Entry{Key: n.Key(), Value: n.Value()})
		walk(n.Right())
	}
	walk(t.Root())
	order("the walk over the nodes", es, true)
	if len(ks) > 0 {
		k := ks[i%len(ks)]
		if v, err := t.Root().Get(k); err != nil || v.Cmp(m[k]) != 0 || !t.Root().Has(k) || t.Root().Size() != len(ks) {
			r.Failf("op %d: Root().Get(%d) = %v, %v", i, k, v, err)
		}
	}
	for _, asc := range []bool{true, false} {
		var es []utils.Entry
		for e := range t.ChannelNodes(asc) {
			es = append(es, e)
		}
		order(fmt.Sprintf("ChannelNodes(%v)", asc), es, asc)
	}
	if len(ks) > 0 {
		if t.MaxPower() != ks[len(ks)-1] || t.MaxNode().Key() != ks[len(ks)-1] || t.MinNode().Key() != ks[0] {
			r.Failf("op %d: max/min %d %d, want %d %d", i, t.MaxPower(), t.MinNode().Key(), ks[len(ks)-1], ks[0])
		}
	} else if t.MaxPower() != 0 {
		r.Failf("op %d: MaxPower of the empty map %d", i, t.MaxPower())
	}
}

func panics(f func()) (p bool) {
	defer func() {
		if e := recover(); e != nil {
			p = true
		}
	}()
	f()
	return false
}

// ---- operands unchanged ----

type immCase struct {
	A, B []string
	SA   spoly
	SB   spoly
	SC   []spoly // further summands, some of them zero
	X, Y string
}

func genImmCase(t *rapid.T) immCase {
	c := immCase{A: genDense(t, "a", 2, upTo(t, 8, 30)), B: genDense(t, "b", 2, upTo(t, 5, 20)), SA: genSparse(t, "sa", 1, upTo(t, 9, 30), 24), SB: genSparse(t, "sb", 1, upTo(t, 5, 20), 12),
		X: genNZ(t, "x").String(), Y: genField(t, "y").String()}
	for n := rapid.IntRange(0, 4).Draw(t, "nsc"); n > 0; n-- {
		c.SC = append(c.SC, genSparse(t, "sc", 0, 3, 12))
	}
	return c
}
func runImmCase(c *immCase, r *R) {
	if bi(c.B[len(c.B)-1]).Sign() == 0 {
		c.B[len(c.B)-1] = "3"
	}
	var a, b []*big.Int
	var sa, sb *utils.AvlTree
	var ds [][]*big.Int         // dense summands
	var ss, sr []*utils.AvlTree // sparse summands, in two orders
	var ws []*big.Int
	var x, y *big.Int
	vec := make([]*big.Int, 25)
	for i := range vec {
		vec[i] = big.NewInt(int64(i % 4))
	}
	var scs []*utils.AvlTree
	var ps []poly
	for _, s := range c.SC {
		ps = append(ps, s.poly())
	}
	reset := func() {
		a, b, sa, sb, x, y = bigs(c.A), bigs(c.B), c.SA.tree(), c.SB.tree(), bi(c.X), bi(c.Y)
		scs = nil
		ds, ss, sr, ws = [][]*big.Int{a}, []*utils.AvlTree{sa}, nil, []*big.Int{x}
		for i, s := range c.SC {
			k := s.tree()
			scs = append(scs, k)
			ss = append(ss, k)
			ws = append(ws, []*big.Int{x, y}[i%2])
			ds = append(ds, []*big.Int{})
		}
		ss, ws, ds = append(ss, sb), append(ws, y), append(ds, b)
		for i := range ss {
			sr = append(sr, ss[len(ss)-1-i])
		}
	}
	type D = []*big.Int
	type S = *utils.AvlTree
	// every operation, and the containers it returns
	ops := []struct {
		name string
		f    func() ([]D, []S)
	}{
		{"Add", func() ([]D, []S) { FQ.Add(x, y); return nil, nil }}, {"Sub", func() ([]D, []S) { FQ.Sub(x, y); return nil, nil }}, {"Mul", func() ([]D, []S) { FQ.Mul(x, y); return nil, nil }},
		{"Div", func() ([]D, []S) { FQ.Div(y, x); return nil, nil }}, {"Inverse", func() ([]D, []S) { FQ.Inverse(x); return nil, nil }}, {"Neg", func() ([]D, []S) { FQ.Neg(x); return nil, nil }},
		{"Exp", func() ([]D, []S) { FQ.Exp(x, y); return nil, nil }}, {"ExpInt", func() ([]D, []S) { FQ.ExpInt(x, 77); return nil, nil }}, {"Square", func() ([]D, []S) { FQ.Square(x); return nil, nil }}, {"Double", func() ([]D, []S) { FQ.Double(x); return nil, nil }},
		{"MulScalar", func() ([]D, []S) { FQ.MulScalar(x, y); return nil, nil }},
		{"Affine", func() ([]D, []S) { FQ.Affine(x); return nil, nil }}, {"Equal", func() ([]D, []S) { FQ.Equal(x, y); return nil, nil }}, {"Copy", func() ([]D, []S) { FQ.Copy(x).SetInt64(5); return nil, nil }},
		{"IsZero", func() ([]D, []S) { FQ.IsZero(x); return nil, nil }},
		{"ScalarProduct", func() ([]D, []S) { FQ.ScalarProduct(a, append(D{}, a...)); return nil, nil }},
		{"EvalPoly", func() ([]D, []S) { FQ.EvalPoly(a, x); return nil, nil }},
		{"poly Add", func() ([]D, []S) { return []D{PF.Add(a, b), PF.Add(b, a)}, nil }},
		{"poly Sub", func() ([]D, []S) { return []D{PF.Sub(a, b), PF.Sub(b, a)}, nil }},
		{"poly Mul", func() ([]D, []S) { return []D{PF.Mul(a, b), PF.Mul(b, a)}, nil }},
		{"poly Div", func() ([]D, []S) { q, m := PF.Div(a, b); return []D{q, m}, nil }},
		{"poly Div self", func() ([]D, []S) { q, m := PF.Div(b, b); return []D{q, m}, nil }},
		{"poly MulScalar", func() ([]D, []S) { return []D{PF.MulScalar(a, x)}, nil }},
		{"poly LinearCombine", func() ([]D, []S) { return PF.LinearCombine([]D{a, b}, D{x, y}), nil }},
		{"poly AddPolynomials", func() ([]D, []S) { return []D{PF.AddPolynomials(ds)}, nil }},
		{"poly AddPolynomials of two", func() ([]D, []S) { return []D{PF.AddPolynomials([]D{b, a})}, nil }},
		{"Lagrange", func() ([]D, []S) { return []D{PF.LagrangeInterpolation(a)}, nil }},
		{"NewPolZeroAt", func() ([]D, []S) { return []D{PF.NewPolZeroAt(1, 3, x)}, nil }},
		{"DomainPolynomial", func() ([]D, []S) { return []D{PF.DomainPolynomial(3)}, nil }},
		{"MulSparse", func() ([]D, []S) { return nil, []S{FQ.MulSparse(sa, sb), FQ.MulSparse(sb, sa)} }},
		{"MulSparseScalar", func() ([]D, []S) { return nil, []S{FQ.MulSparseScalar(sa, y), FQ.MulSparseScalar(sb, big.NewInt(1))} }},
		{"DivideSparse", func() ([]D, []S) { q, m := FQ.DivideSparse(sa, sb); return nil, []S{q, m} }},
		{"AddToSparse", func() ([]D, []S) { return nil, []S{FQ.AddToSparse(sa, sb), FQ.AddToSparse(sb, sa)} }},
		{"AddToSparse with zero", func() ([]D, []S) {
			e := utils.NewAvlTree()
			return nil, []S{FQ.AddToSparse(sa, e), FQ.AddToSparse(e, sa), FQ.SubToSparse(sb, e)}
		}},
		{"SubToSparse", func() ([]D, []S) { return nil, []S{FQ.SubToSparse(sa, sb), FQ.SubToSparse(sb, sa)} }},
		{"EvalSparsePoly", func() ([]D, []S) { FQ.EvalSparsePoly(sa, x); return nil, nil }},
		{"InterpolateSparse", func() ([]D, []S) { return nil, []S{FQ.InterpolateSparseArray(sb, 13)} }},
		{"SparseScalarProduct", func() ([]D, []S) { FQ.SparseScalarProduct(sa, vec); return nil, nil }},
		{"sparse LinearCombine", func() ([]D, []S) { return nil, FQ.LinearCombine(ss, ws) }},
		{"sparse AddPolynomials", func() ([]D, []S) { return nil, []S{FQ.AddPolynomials(ss)} }},
		{"sparse AddPolynomials backwards", func() ([]D, []S) { return nil, []S{FQ.AddPolynomials(sr)} }},
		{"sparse AddPolynomials of the others", func() ([]D, []S) {
			if len(scs) == 0 {
				return nil, nil
			}
			return nil, []S{FQ.AddPolynomials(scs)}
		}},
		{"TransposeSparse", func() ([]D, []S) { return nil, utils.TransposeSparse(ss, 25) }},
		{"NewSparseArrayFromArray", func() ([]D, []S) { return nil, []S{utils.NewSparseArrayFromArray(a)} }},
		{"Clone", func() ([]D, []S) { return nil, []S{sa.Clone(), sb.Clone()} }},
		{"ToArray", func() ([]D, []S) { return []D{sa.ToArray(25)}, nil }},
		{"tree String", func() ([]D, []S) { _ = sa.String(); return nil, nil }},
	}
	pa, pb := c.SA.poly(), c.SB.poly()
	for _, o := range ops {
		reset()
		verify := func(name string) {
			if !eqBigs(a, bigs(c.A)) || !eqBigs(b, bigs(c.B)) {
				r.Failf("%s changed a dense operand: %v %v", name, a, b)
			}
			if x.Cmp(bi(c.X)) != 0 || y.Cmp(bi(c.Y)) != 0 {
				r.Failf("%s changed a scalar operand: %v %v", name, x, y)
			}
			if !pEq(treeToPoly(sa), pa) || !pEq(treeToPoly(sb), pb) || sa.Size() != len(pa) || sb.Size() != len(pb) {
				r.Failf("%s changed a sparse operand: %v %v, were %v %v", name, treeToPoly(sa), treeToPoly(sb), pa, pb)
			}
			for i := range scs {
				if !pEq(treeToPoly(scs[i]), ps[i]) {
					r.Failf("%s changed a sparse operand: %v, was %v", name, treeToPoly(scs[i]), ps[i])
				}
			}
			for i := range vec {
				if vec[i].Cmp(big.NewInt(int64(i%4))) != 0 {
					r.Failf("%s changed a weight", name)
				}
			}
			if FQ.Q.Cmp(refN) != 0 || FQ.Zero().Sign() != 0 || FQ.One().Cmp(big.NewInt(1)) != 0 || utils.ArrayOfBigZeros(1)[0].Sign() != 0 {
				r.Failf("%s changed a shared constant", name)
			}
		}
		dense, sparse := o.f()
		verify(o.name)
		if o.name != "Clone" && o.name != "ToArray" {
			continue
		}
		// a copy can be written to
		for _, d := range dense {
			for i := range d {
				d[i] = big.NewInt(77)
			}
		}
		for _, q := range sparse {
			for _, k := range []uint{0, 3, 24, uint(c.SA.K[0]), uint(c.SB.K[0])} {
				q.Put(k, x, FQ.Add)
			}
			q.Insert(2, y)
			FQ.Combine(q, bigs(strs(append(append([]*big.Int{}, vec...), make25(y)...))))
		}
		verify("writing to the result of " + o.name)
	}
	r.NonTrivialIf(len(pa) > 1 && len(pb) > 1)
	r.LabelIf(len(ps) > 0, "more than two summands")
}

// make25 pads weights, so that results of products are covered too
func make25(v *big.Int) []*big.Int {
	out := make([]*big.Int, 25)
	for i := range out {
		out[i] = v
	}
	return out
}

func init() {
	register("U01", mk("field", "the second operand is invertible", 160000, 2000000, genFieldCase, runFieldCase))
	register("U02", overFields("dense", "both polynomials have at least two non-zero coefficients", 80000, 800000, genDenseCase, runDenseCase))
	register("U03", overFields("sparse", "both polynomials have at least three non-zero coefficients", 24000, 200000, genSparseCase, runSparseCase))
	register("U04", overFields("division", "dividend degree >= divisor degree >= 1 and the divisor is no monomial", 40000, 500000, genDivCase, runDivCase))
	register("U05", overFields("interpolation", "some data set has at least two non-zero values", 10000, 100000, genInterpCase, runInterpCase))
	register("U06", mk("ordered map", "a key was removed and more than two remain", 16000, 160000, genAvlCase, runAvlCase))
	register("U07", overFields("evaluation", "non-zero point, polynomials with more than one coefficient", 40000, 500000, genEvalCase, runEvalCase))
	register("U08", mk("operands unchanged", "both sparse operands have at least two terms", 16000, 160000, genImmCase, runImmCase))
}
