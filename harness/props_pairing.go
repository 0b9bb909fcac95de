package main

// P01..P05: the groups and the pairing, against affine arithmetic written from the curve equations.

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	bn "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"pgregory.net/rapid"
)

// genScalar draws a scalar, biased to the ends of the group order and beyond it, rarely negative.
func genScalar(t *rapid.T, label string) *big.Int {
	k := genNonNeg(t, label)
	if rapid.IntRange(0, 11).Draw(t, label+".neg") == 11 {
		k.Neg(k)
	}
	return k
}
func genNonNeg(t *rapid.T, label string) *big.Int {
	switch rapid.IntRange(0, 7).Draw(t, label+".k") {
	case 0, 1:
		return big.NewInt(int64(rapid.IntRange(0, 9).Draw(t, label)))
	case 2:
		return new(big.Int).Add(refN, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, label))))
	case 3:
		v := genField(t, label)
		return v.Add(v, new(big.Int).Mul(refN, big.NewInt(int64(rapid.IntRange(1, 5).Draw(t, label+".m")))))
	case 4:
		return new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 260).Draw(t, label)))
	}
	return genField(t, label)
}

type grpOp struct {
	Op      string // base mul add neg rt (marshal round trip)
	D, A, B int
	K       string
	Fresh   bool // the receiver is a new element
}
type grpCase struct {
	G2  bool
	Ops []grpOp
}

const grpRegs = 3

func genGrpCase(g2 bool) func(t *rapid.T) grpCase {
	return func(t *rapid.T) grpCase {
		c := grpCase{G2: g2}
		ops := []string{"base", "mul", "add", "add", "add", "add", "rt", "opp"}
		if !g2 {
			ops = append(ops, "neg", "neg")
		}
		n := rapid.IntRange(1, 8).Draw(t, "n")
		for i := 0; i < n; i++ {
			c.Ops = append(c.Ops, grpOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), D: rapid.IntRange(0, grpRegs-1).Draw(t, "d"),
				A: rapid.IntRange(0, grpRegs-1).Draw(t, "a"), B: rapid.IntRange(0, grpRegs-1).Draw(t, "b"),
				K: genScalar(t, "k").String(), Fresh: rapid.Bool().Draw(t, "fresh")})
		}
		return c
	}
}

// grpElem hides which group is exercised.
type grpElem struct {
	a *bn.G1
	b *bn.G2
}

func (e grpElem) marshal() []byte {
	if e.a != nil {
		return e.a.Marshal()
	}
	return e.b.Marshal()
}

func runGrpCase(c *grpCase, r *R) {
	gen, enc := refG1, encG1
	if c.G2 {
		gen, enc = refG2, encG2
	}
	base := func(k *big.Int) grpElem {
		if c.G2 {
			return grpElem{b: new(bn.G2).ScalarBaseMult(k)}
		}
		return grpElem{a: new(bn.G1).ScalarBaseMult(k)}
	}
	var reg [grpRegs]grpElem
	var mod [grpRegs]apt
	for i := range reg {
		reg[i] = base(big.NewInt(int64(i)))
		mod[i] = aMul(gen, big.NewInt(int64(i)))
	}
	sawInf, alias, dbl, opp := false, false, false, false
	for i, o := range c.Ops {
		k := bi(o.K)
		kk := new(big.Int).Set(k)
		d := reg[o.D]
		if o.Fresh {
			d = grpElem{a: d.a, b: d.b}
			if c.G2 {
				d.b = new(bn.G2)
			} else {
				d.a = new(bn.G1)
			}
		} else if (o.Op == "add" && (o.D == o.A || o.D == o.B)) || (o.Op != "base" && o.D == o.A) {
			alias = true
		}
		a, b := reg[o.A], reg[o.B]
		var ret grpElem
		var want apt
		switch o.Op {
		case "base":
			want = aMul(gen, k)
			if c.G2 {
				ret.b = d.b.ScalarBaseMult(k)
			} else {
				ret.a = d.a.ScalarBaseMult(k)
			}
		case "mul":
			want = aMul(mod[o.A], k)
			if c.G2 {
				ret.b = d.b.ScalarMult(a.b, k)
			} else {
				ret.a = d.a.ScalarMult(a.a, k)
			}
		case "add":
			want = aAdd(mod[o.A], mod[o.B])
			dbl = dbl || (!mod[o.A].inf && !mod[o.B].inf && mod[o.A].x.eq(mod[o.B].x) && mod[o.A].y.eq(mod[o.B].y))
			opp = opp || (!mod[o.A].inf && !mod[o.B].inf && want.inf)
			if c.G2 {
				ret.b = d.b.Add(a.b, b.b)
			} else {
				ret.a = d.a.Add(a.a, b.a)
			}
		case "neg":
			want = aNeg(mod[o.A])
			ret.a = d.a.Neg(a.a)
		case "opp": // the opposite through the group order
			want = aNeg(mod[o.A])
			m := new(big.Int).Sub(refN, big.NewInt(1))
			if c.G2 {
				ret.b = d.b.ScalarMult(a.b, m)
			} else {
				ret.a = d.a.ScalarMult(a.a, m)
			}
		case "rt":
			want = mod[o.A]
			var err error
			m := a.marshal()
			if c.G2 {
				_, err = d.b.Unmarshal(m)
				ret.b = d.b
			} else {
				_, err = d.a.Unmarshal(m)
				ret.a = d.a
			}
			if err != nil {
				r.Failf("op %d: Unmarshal of a marshalled element: %v", i, err)
			}
		}
		if ret.a != d.a || ret.b != d.b {
			r.Failf("op %d %s does not return its receiver", i, o.Op)
		}
		if k.Cmp(kk) != 0 {
			r.Failf("op %d %s changed its scalar", i, o.Op)
		}
		reg[o.D], mod[o.D] = d, want
		sawInf = sawInf || want.inf
		if got := d.marshal(); !bytes.Equal(got, enc(want)) {
			r.Failf("op %d (%+v) gives %x, want %x", i, o, got, enc(want))
		}
		for j := range reg {
			if got := reg[j].marshal(); !bytes.Equal(got, enc(mod[j])) {
				r.Failf("op %d (%+v) changed register %d to %x, want %x", i, o, j, got, enc(mod[j]))
			}
			if !c.G2 {
				x := new(big.Int)
				if !mod[j].inf {
					x = mod[j].x.b
				}
				if got := reg[j].a.X(); got.Cmp(x) != 0 {
					r.Failf("op %d (%+v): X of register %d is %v, want %v", i, o, j, got, x)
				}
			}
		}
	}
	r.LabelIf(sawInf, "infinity")
	r.LabelIf(alias, "aliased receiver")
	r.LabelIf(dbl, "equal points added")
	r.LabelIf(opp, "opposite points added")
	r.NonTrivialIf(len(c.Ops) >= 3 && (alias || dbl || opp || sawInf))
}

// the representation may stay unnormalised between operations: no marshalling in between
func runGrpLazy(c *grpCase, r *R) {
	gen, enc := refG1, encG1
	if c.G2 {
		gen, enc = refG2, encG2
	}
	var reg [grpRegs]grpElem
	var exp [grpRegs]*big.Int
	for i := range reg {
		exp[i] = big.NewInt(int64(i))
		if c.G2 {
			reg[i].b = new(bn.G2).ScalarBaseMult(exp[i])
		} else {
			reg[i].a = new(bn.G1).ScalarBaseMult(exp[i])
		}
	}
	for _, o := range c.Ops {
		k := bi(o.K)
		d := reg[o.D]
		if o.Fresh {
			d = grpElem{}
			if c.G2 {
				d.b = new(bn.G2)
			} else {
				d.a = new(bn.G1)
			}
		}
		a, b := reg[o.A], reg[o.B]
		var e *big.Int
		switch o.Op {
		case "base":
			e = modN(k)
			if c.G2 {
				d.b.ScalarBaseMult(k)
			} else {
				d.a.ScalarBaseMult(k)
			}
		case "mul", "rt":
			e = fMul(exp[o.A], k)
			if c.G2 {
				d.b.ScalarMult(a.b, k)
			} else {
				d.a.ScalarMult(a.a, k)
			}
		case "add":
			e = fAdd(exp[o.A], exp[o.B])
			if c.G2 {
				d.b.Add(a.b, b.b)
			} else {
				d.a.Add(a.a, b.a)
			}
		case "opp":
			e = fSub(new(big.Int), exp[o.A])
			m := new(big.Int).Sub(refN, big.NewInt(1))
			if c.G2 {
				d.b.ScalarMult(a.b, m)
			} else {
				d.a.ScalarMult(a.a, m)
			}
		case "neg":
			e = fSub(new(big.Int), exp[o.A])
			d.a.Neg(a.a)
		}
		reg[o.D], exp[o.D] = d, e
	}
	for j := range reg {
		want := aMul(gen, exp[j])
		if !c.G2 {
			x := new(big.Int)
			if !want.inf {
				x = want.x.b
			}
			if got := reg[j].a.X(); got.Cmp(x) != 0 {
				r.Failf("X of register %d is %v, want %v", j, got, x)
			}
		}
		if got := reg[j].marshal(); !bytes.Equal(got, enc(want)) {
			r.Failf("register %d is %x, want %v·g = %x", j, got, exp[j], enc(want))
		}
	}
	r.NonTrivialIf(len(c.Ops) >= 3)
}

type rndCase struct{ Seed []byte }

func genRndCase(t *rapid.T) rndCase {
	return rndCase{Seed: rapid.SliceOfN(rapid.Byte(), 1, 16).Draw(t, "s")}
}

// repReader yields a stream derived from the seed; the first bytes are the seed padded with its last byte.
type repReader struct {
	seed []byte
	n    int
}

func (q *repReader) Read(p []byte) (int, error) {
	for i := range p {
		k := q.n
		q.n++
		if k < 64 {
			if k < len(q.seed) {
				p[i] = q.seed[k]
			} else {
				p[i] = q.seed[len(q.seed)-1]
			}
		} else {
			p[i] = byte(hashBytes([]byte(fmt.Sprint(q.seed, k))))
		}
	}
	return len(p), nil
}
func runRndCase(c *rndCase, r *R) {
	k, g, err := bn.RandomG1(&repReader{seed: c.Seed})
	if err != nil || k.Sign() <= 0 || k.Cmp(refN) >= 0 {
		r.Failf("RandomG1: %v %v", k, err)
	}
	if !bytes.Equal(g.Marshal(), encG1(aMul(refG1, k))) {
		r.Failf("RandomG1: element is not k·g for k=%v", k)
	}
	k2, h, err := bn.RandomG2(&repReader{seed: c.Seed})
	if err != nil || k2.Sign() <= 0 || k2.Cmp(refN) >= 0 {
		r.Failf("RandomG2: %v %v", k2, err)
	}
	if !bytes.Equal(h.Marshal(), encG2(aMul(refG2, k2))) {
		r.Failf("RandomG2: element is not k·g for k=%v", k2)
	}
	r.NonTrivial()
}

// ---- pairing ----

var refE = sync.OnceValue(func() fp12 { return refPair(refG1, refG2) })

type pairCase struct{ A, B, C, K string }

func genPairCase(t *rapid.T) pairCase {
	return pairCase{genScalar(t, "a").String(), genScalar(t, "b").String(), genScalar(t, "c").String(), genScalar(t, "k").String()}
}
func g1(k *big.Int) *bn.G1 { return new(bn.G1).ScalarBaseMult(k) }
func g2(k *big.Int) *bn.G2 { return new(bn.G2).ScalarBaseMult(k) }

func runPairCase(c *pairCase, r *R) {
	a, b, cc, k := bi(c.A), bi(c.B), bi(c.C), bi(c.K)
	P, Q, P2, Q2 := g1(a), g2(b), g1(cc), g2(cc)
	mp, mq := P.Marshal(), Q.Marshal()
	P, Q = g1(a), g2(b) // not normalised by Marshal
	e := bn.Pair(P, Q)
	if !bytes.Equal(P.Marshal(), mp) || !bytes.Equal(Q.Marshal(), mq) {
		r.Failf("Pair changed an operand")
	}
	em := append([]byte{}, e.Marshal()...)
	eq := func(what string, g *bn.GT) {
		if !bytes.Equal(g.Marshal(), em) {
			r.Failf("%s differs from e(aP,bQ) for a=%v b=%v c=%v", what, a, b, cc)
		}
	}
	ab := fMul(modN(a), modN(b))
	eq("e(P,Q)^(ab)", new(bn.GT).ScalarMult(bn.Pair(g1(big.NewInt(1)), g2(big.NewInt(1))), ab))
	eq("e(abP,Q)", bn.Pair(g1(ab), g2(big.NewInt(1))))
	eq("e(bP,aQ)", bn.Pair(g1(b), g2(a)))
	if one := bytes.Equal(em, bn.OneGT().Marshal()); one != (ab.Sign() == 0) {
		r.Failf("e(aP,bQ) is one: %v, for a=%v b=%v", one, a, b)
	}
	if !decGT(em).eq(refE().exp(ab)) {
		r.Failf("e(aP,bQ) is not the reference value for a=%v b=%v", a, b)
	}
	// additivity on both sides
	l := bn.Pair(new(bn.G1).Add(P, P2), Q)
	rr := new(bn.GT).Add(bn.Pair(P, Q), bn.Pair(P2, Q))
	if !bytes.Equal(l.Marshal(), rr.Marshal()) {
		r.Failf("e(P1+P2,Q) != e(P1,Q)+e(P2,Q) for %v %v %v", a, cc, b)
	}
	l = bn.Pair(P, new(bn.G2).Add(Q, Q2))
	rr = new(bn.GT).Add(bn.Pair(P, Q), bn.Pair(P, Q2))
	if !bytes.Equal(l.Marshal(), rr.Marshal()) {
		r.Failf("e(P,Q1+Q2) != e(P,Q1)+e(P,Q2) for %v %v %v", a, b, cc)
	}
	// scalars may move between the arguments
	l = bn.Pair(new(bn.G1).ScalarMult(P, k), Q)
	rr = bn.Pair(P, new(bn.G2).ScalarMult(Q, k))
	if !bytes.Equal(l.Marshal(), rr.Marshal()) {
		r.Failf("e(kP,Q) != e(P,kQ) for %v %v %v", a, b, k)
	}
	l = bn.Pair(new(bn.G1).Neg(P), Q)
	rr = new(bn.GT).Neg(bn.Pair(P, Q))
	if !bytes.Equal(l.Marshal(), rr.Marshal()) {
		r.Failf("e(-P,Q) != -e(P,Q) for %v %v", a, b)
	}
	r.NonTrivialIf(ab.Sign() != 0)
	r.LabelIf(ab.Sign() == 0, "infinity")
}

// ---- the same variables, paired again after they changed ----

type pairHist struct{ Ops []pairOp }
type pairOp struct {
	Op   string // pair, or an operation on a register
	G2   bool
	I, J int
	K    string
}

func genPairHist(t *rapid.T) pairHist {
	var c pairHist
	for n := rapid.IntRange(2, 8).Draw(t, "n"); n > 0; n-- {
		c.Ops = append(c.Ops, pairOp{rapid.SampledFrom([]string{"pair", "pair", "pair", "base", "mul", "add", "rt", "check"}).Draw(t, "op"), rapid.Bool().Draw(t, "g2"),
			rapid.IntRange(0, 1).Draw(t, "i"), rapid.IntRange(0, 1).Draw(t, "j"), genScalar(t, "k").String()})
	}
	c.Ops = append(c.Ops, pairOp{"pair", false, rapid.IntRange(0, 1).Draw(t, "i"), rapid.IntRange(0, 1).Draw(t, "j"), "0"})
	return c
}

func runPairHist(c *pairHist, r *R) {
	P := []*bn.G1{g1(big.NewInt(1)), g1(big.NewInt(2))}
	Q := []*bn.G2{g2(big.NewInt(1)), g2(big.NewInt(3))}
	p, q := []*big.Int{big.NewInt(1), big.NewInt(2)}, []*big.Int{big.NewInt(1), big.NewInt(3)}
	done := map[string]bool{}
	var results []*bn.GT
	var want [][]byte
	pairs, repeated := 0, false
	for i, o := range c.Ops {
		k := bi(o.K)
		switch o.Op {
		case "pair":
			e := bn.Pair(P[o.I], Q[o.J])
			w := encGT(refE().exp(fMul(p[o.I], q[o.J])))
			if !bytes.Equal(e.Marshal(), w) {
				r.Failf("op %d: the pairing of %v·g and %v·h differs from the reference", i, p[o.I], q[o.J])
			}
			results, want = append(results, e), append(want, w)
			key := fmt.Sprint(o.I, o.J)
			repeated = repeated || done[key]
			done[key] = true
			pairs++
		case "check":
			s := fAdd(fMul(p[o.I], q[o.J]), fMul(p[1-o.I], q[1-o.J]))
			if got := bn.PairingCheck([]*bn.G1{P[o.I], P[1-o.I]}, []*bn.G2{Q[o.J], Q[1-o.J]}); got != (s.Sign() == 0) {
				r.Failf("op %d: PairingCheck gives %v", i, got)
			}
		case "base":
			if o.G2 {
				Q[o.I].ScalarBaseMult(k)
				q[o.I] = modN(k)
			} else {
				P[o.I].ScalarBaseMult(k)
				p[o.I] = modN(k)
			}
		case "mul":
			if o.G2 {
				Q[o.I].ScalarMult(Q[o.J], k)
				q[o.I] = fMul(q[o.J], modN(k))
			} else {
				P[o.I].ScalarMult(P[o.J], k)
				p[o.I] = fMul(p[o.J], modN(k))
			}
		case "add":
			if o.G2 {
				Q[o.I].Add(Q[o.I], Q[o.J])
				q[o.I] = fAdd(q[o.I], q[o.J])
			} else {
				P[o.I].Add(P[o.I], P[o.J])
				p[o.I] = fAdd(p[o.I], p[o.J])
			}
		case "rt":
			if o.G2 {
				Q[o.I].Unmarshal(append([]byte{}, Q[o.J].Marshal()...))
				q[o.I] = q[o.J]
			} else {
				P[o.I].Unmarshal(append([]byte{}, P[o.J].Marshal()...))
				p[o.I] = p[o.J]
			}
		}
	}
	for i := range results {
		if !bytes.Equal(results[i].Marshal(), want[i]) {
			r.Failf("the value of pairing %d was changed by later operations", i)
		}
	}
	r.LabelIf(repeated, "the same variables again")
	r.NonTrivialIf(pairs > 1)
}

type refPairCase struct{ A, B string }

func runRefPair(c *refPairCase, r *R) {
	a, b := bi(c.A), bi(c.B)
	got := decGT(bn.Pair(g1(a), g2(b)).Marshal())
	if !got.eq(refPair(aMul(refG1, a), aMul(refG2, b))) {
		r.Failf("Pair(aP,bQ) differs from the reference optimal ate pairing, a=%v b=%v", a, b)
	}
	r.NonTrivialIf(modN(a).Sign() != 0 && modN(b).Sign() != 0)
}

// ---- target group ----

type gtOp struct {
	Op      string
	D, A, B int
	K       string
	Fresh   bool
}
type gtCase struct{ Ops []gtOp }

func genGTCase(t *rapid.T) gtCase {
	var c gtCase
	n := rapid.IntRange(1, 6).Draw(t, "n")
	for i := 0; i < n; i++ {
		c.Ops = append(c.Ops, gtOp{rapid.SampledFrom([]string{"mul", "add", "add", "neg", "rt", "one"}).Draw(t, "op"), rapid.IntRange(0, 2).Draw(t, "d"),
			rapid.IntRange(0, 2).Draw(t, "a"), rapid.IntRange(0, 2).Draw(t, "b"), genScalar(t, "k").String(), rapid.Bool().Draw(t, "f")})
	}
	return c
}
func runGTCase(c *gtCase, r *R) {
	E := refE()
	reg := []*bn.GT{bn.OneGT(), bn.Pair(g1(big.NewInt(1)), g2(big.NewInt(1))), bn.Pair(g1(big.NewInt(3)), g2(big.NewInt(5)))}
	exp := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(15)}
	val := []fp12{f12one(), E, E.exp(big.NewInt(15))}
	alias := false
	for i, o := range c.Ops {
		k := bi(o.K)
		d := reg[o.D]
		if o.Fresh {
			d = new(bn.GT)
		} else if o.D == o.A || o.D == o.B {
			alias = true
		}
		var ret *bn.GT
		var e *big.Int
		var v fp12
		switch o.Op {
		case "mul":
			e = fMul(exp[o.A], modN(k))
			v = val[o.A].exp(modN(k))
			ret = d.ScalarMult(reg[o.A], k)
		case "add":
			e = fAdd(exp[o.A], exp[o.B])
			v = val[o.A].mul(val[o.B])
			ret = d.Add(reg[o.A], reg[o.B])
		case "neg":
			e = fSub(new(big.Int), exp[o.A])
			v = E.exp(e)
			ret = d.Neg(reg[o.A])
		case "rt":
			e, v = exp[o.A], val[o.A]
			var ok bool
			m := reg[o.A].Marshal()
			if len(m) != 384 {
				r.Failf("marshalled length %d", len(m))
			}
			if ret, ok = d.Unmarshal(m); !ok {
				r.Failf("Unmarshal fails on a marshalled element")
			}
			for _, l := range []int{0, 383, 385} {
				if _, ok := new(bn.GT).Unmarshal(make([]byte, l)); ok {
					r.Failf("Unmarshal accepts %d bytes", l)
				}
			}
		case "one":
			e, v = new(big.Int), f12one()
			d = bn.OneGT()
			ret = d
		}
		if ret != d {
			r.Failf("%s does not return its receiver", o.Op)
		}
		reg[o.D], exp[o.D], val[o.D] = d, e, v
		for j := range reg {
			if got := reg[j].Marshal(); !bytes.Equal(got, encGT(val[j])) {
				r.Failf("op %d (%+v): register %d is %x, want E^%v", i, o, j, got, exp[j])
			}
		}
	}
	r.NonTrivialIf(len(c.Ops) >= 2)
	r.LabelIf(alias, "aliased receiver")
}

// ---- marshalling ----

type marCase struct {
	G2   bool
	K    string
	Mut  string
	I, J int
	V    string
}

func genMarCase(t *rapid.T) marCase {
	return marCase{G2: rapid.Bool().Draw(t, "g2"), K: genScalar(t, "k").String(),
		Mut: rapid.SampledFrom([]string{"none", "len", "byte", "plusP", "swap", "zero", "random", "neg", "twisttorsion"}).Draw(t, "mut"),
		I:   rapid.IntRange(0, 3).Draw(t, "i"), J: rapid.IntRange(0, 255).Draw(t, "j"), V: genBelow(t, refP, "v").String()}
}

// onCurve decides membership from the curve equation and the group order.
func onCurve(m []byte, g2 bool) bool {
	n := 2
	if g2 {
		n = 4
	}
	if len(m) != 32*n {
		return false
	}
	zero := true
	var v []*big.Int
	for i := 0; i < n; i++ {
		x := new(big.Int).SetBytes(m[32*i : 32*i+32])
		if x.Cmp(refP) >= 0 {
			return false
		}
		zero = zero && x.Sign() == 0
		v = append(v, x)
	}
	if zero {
		return true
	}
	var p apt
	var b fp2
	if g2 {
		p = apt{x: f2(v[0], v[1]), y: f2(v[2], v[3])}
		b = f2i(3).mul(refXi.inv())
	} else {
		p = apt{x: f2(new(big.Int), v[0]), y: f2(new(big.Int), v[1])}
		b = f2i(3)
	}
	if !p.y.mul(p.y).eq(p.x.mul(p.x).mul(p.x).add(b)) {
		return false
	}
	return aMul(p, refN).inf
}

func sqrtP(x *big.Int) *big.Int { return new(big.Int).ModSqrt(modP(x), refP) }

// sqrt in Fp2 with i² = -1; nil if there is none
func sqrt2(x fp2) *fp2 {
	if x.a.Sign() == 0 {
		if s := sqrtP(x.b); s != nil {
			r := f2(new(big.Int), s)
			return &r
		}
		s := sqrtP(new(big.Int).Neg(x.b))
		r := f2(s, new(big.Int))
		return &r
	}
	n := sqrtP(new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b)))
	if n == nil {
		return nil
	}
	half := new(big.Int).ModInverse(big.NewInt(2), refP)
	for _, s := range []*big.Int{n, new(big.Int).Neg(n)} {
		d := new(big.Int).Mul(new(big.Int).Add(x.b, s), half)
		if re := sqrtP(d); re != nil && re.Sign() != 0 {
			im := new(big.Int).Mul(x.a, new(big.Int).ModInverse(new(big.Int).Lsh(re, 1), refP))
			r := f2(im, re)
			if r.mul(r).eq(x) {
				return &r
			}
		}
	}
	return nil
}

func runMarCase(c *marCase, r *R) {
	k := bi(c.K)
	var m []byte
	n := 2
	gen, enc := refG1, encG1
	if c.G2 {
		n, gen, enc = 4, refG2, encG2
		m = g2(k).Marshal()
	} else {
		m = g1(k).Marshal()
	}
	if !bytes.Equal(m, enc(aMul(gen, k))) {
		r.Failf("Marshal(%v·g) = %x", k, m)
	}
	m = append([]byte{}, m...)
	i := c.I % n
	switch c.Mut {
	case "len":
		l := []int{0, 1, 31, 32, 63, 65, 127, 129, 64, 128}[c.J%10]
		m = append(m, make([]byte, 130)...)[:l]
	case "byte":
		m[c.J%len(m)] ^= byte(1 << (c.I % 8))
	case "plusP":
		x := new(big.Int).SetBytes(m[32*i : 32*i+32])
		x.Add(x, refP)
		copy(m[32*i:], be32(x))
	case "swap":
		j := (i + 1) % n
		t := append([]byte{}, m[32*i:32*i+32]...)
		copy(m[32*i:], m[32*j:32*j+32])
		copy(m[32*j:], t)
	case "zero":
		copy(m[32*i:32*i+32], make([]byte, 32))
	case "random":
		copy(m[32*i:], be32(bi(c.V)))
	case "neg":
		for j := n / 2; j < n; j++ {
			x := new(big.Int).SetBytes(m[32*j : 32*j+32])
			copy(m[32*j:], be32(modP(x.Neg(x))))
		}
	case "twisttorsion":
		if c.G2 { // a point of the twist, almost never of the subgroup
			x := f2(bi(c.V), big.NewInt(int64(c.J)))
			y2 := x.mul(x).mul(x).add(f2i(3).mul(refXi.inv()))
			if y := sqrt2(y2); y != nil {
				m = encG2(apt{x: x, y: *y})
				r.Label("twist point outside the subgroup")
			}
		}
	}
	want := onCurve(m, c.G2)
	in := append([]byte{}, m...)
	var err error
	var rest, out []byte
	if c.G2 {
		e := new(bn.G2)
		if c.J&1 == 1 {
			e.ScalarBaseMult(big.NewInt(7)) // an element in use
		}
		if rest, err = e.Unmarshal(m); err == nil {
			out = e.Marshal()
		}
	} else {
		e := new(bn.G1)
		if c.J&1 == 1 {
			e.ScalarBaseMult(big.NewInt(7))
		}
		if rest, err = e.Unmarshal(m); err == nil {
			out = e.Marshal()
		}
	}
	if (err == nil) != want {
		r.Failf("Unmarshal(%x): error %v, valid element: %v", m, err, want)
	}
	if err == nil && (!bytes.Equal(out, in) || len(rest) != 0) {
		r.Failf("Unmarshal then Marshal of %x gives %x, %d bytes left", in, out, len(rest))
	}
	if !bytes.Equal(in, m) {
		r.Failf("Unmarshal changed its input")
	}
	r.NonTrivialIf(c.Mut != "none" || k.Sign() != 0)
	r.LabelIf(want, "valid")
	r.LabelIf(!want, "invalid")
	r.LabelIf(c.G2, "G2")
}

// ---- PairingCheck ----

type pcCase struct {
	A, B []string
	Fix  bool // the last pair is chosen to make the sum zero
}

func genPCCase(t *rapid.T) pcCase {
	n := rapid.IntRange(0, upTo(t, 4, 10)).Draw(t, "n")
	c := pcCase{Fix: rapid.Bool().Draw(t, "fix")}
	for i := 0; i < n; i++ {
		c.A = append(c.A, genScalar(t, "a").String())
		c.B = append(c.B, genScalar(t, "b").String())
	}
	return c
}
func runPCCase(c *pcCase, r *R) {
	s := new(big.Int)
	var as []*bn.G1
	var bs []*bn.G2
	inf := false
	for i := range c.A {
		a, b := bi(c.A[i]), bi(c.B[i])
		s = fAdd(s, fMul(modN(a), modN(b)))
		as = append(as, g1(a))
		bs = append(bs, g2(b))
		inf = inf || modN(a).Sign() == 0 || modN(b).Sign() == 0
	}
	if c.Fix {
		as = append(as, g1(fSub(new(big.Int), s)))
		bs = append(bs, g2(big.NewInt(1)))
		s = new(big.Int)
	}
	if got := bn.PairingCheck(as, bs); got != (s.Sign() == 0) {
		r.Failf("PairingCheck(%v,%v, fix=%v) = %v", c.A, c.B, c.Fix, got)
	}
	r.NonTrivialIf(len(as) >= 2)
	r.LabelIf(s.Sign() == 0, "sums to zero")
	r.LabelIf(inf, "infinity")
}

func init() {
	register("P01", mk("G1 histories", "at least three operations with an aliased receiver, infinity, equal or opposite points", 4000, 60000, genGrpCase(false), runGrpCase),
		mk("G2 histories", "as for G1", 1600, 24000, genGrpCase(true), runGrpCase),
		mk("G1 unnormalised", "at least three operations", 4000, 60000, genGrpCase(false), runGrpLazy),
		mk("G2 unnormalised", "at least three operations", 1600, 24000, genGrpCase(true), runGrpLazy),
		mk("random elements", "every case", 120, 3000, genRndCase, runRndCase))
	register("P02", mk("bilinearity", "neither argument is infinity", 240, 4000, genPairCase, runPairCase),
		mk("histories", "at least two pairings", 400, 8000, genPairHist, runPairHist),
		mk("reference pairing", "neither argument is infinity", 16, 400, func(t *rapid.T) refPairCase {
			return refPairCase{genScalar(t, "a").String(), genScalar(t, "b").String()}
		}, runRefPair))
	register("P03", mk("marshalling", "the encoding was altered, or the element is not infinity", 10000, 100000, genMarCase, runMarCase))
	register("P04", mk("pairing products", "at least two pairs", 1600, 20000, genPCCase, runPCCase))
	register("P05", mk("target group", "at least two operations", 400, 8000, genGTCase, runGTCase))
}
