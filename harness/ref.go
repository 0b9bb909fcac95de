package main

// Reference models, written from the mathematics and not from the code under test.

import (
	"fmt"
	"math/big"
	"sort"

	"pgregory.net/rapid"
)

func bi(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad integer " + s)
	}
	return n
}

// BN parameters derived from u (not read from the code under test).
var (
	refU = bi("4965661367192848881")
	refP = bnPoly(36, 36, 24, 6, 1)
	refN = bnPoly(36, 36, 18, 6, 1) // group order
)

func bnPoly(c ...int64) *big.Int {
	r := new(big.Int)
	for _, k := range c {
		r.Mul(r, refU)
		r.Add(r, big.NewInt(k))
	}
	return r
}

func modN(x *big.Int) *big.Int    { return new(big.Int).Mod(x, refN) }
func fAdd(a, b *big.Int) *big.Int { return modN(new(big.Int).Add(a, b)) }
func fSub(a, b *big.Int) *big.Int { return modN(new(big.Int).Sub(a, b)) }
func fMul(a, b *big.Int) *big.Int { return modN(new(big.Int).Mul(a, b)) }
func fInv(a *big.Int) *big.Int    { return new(big.Int).ModInverse(modN(a), refN) }
func fDiv(a, b *big.Int) *big.Int { return fMul(a, fInv(b)) }

// ---- integers in cases are decimal strings ----

func bigs(ss []string) []*big.Int {
	r := make([]*big.Int, len(ss))
	for i, s := range ss {
		r[i] = bi(s)
	}
	return r
}
func strs(bs []*big.Int) []string {
	r := make([]string, len(bs))
	for i, b := range bs {
		r[i] = b.String()
	}
	return r
}
func eqBigs(a, b []*big.Int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Cmp(b[i]) != 0 {
			return false
		}
	}
	return true
}

var wordSizes = []int{64, 32, 128, 63, 31, 8, 16, 192, 253}

// genRelated draws a field element, often one that is related to one of the earlier ones.
func genRelated(t *rapid.T, prev []*big.Int, label string) *big.Int {
	if len(prev) == 0 || rapid.IntRange(0, 3).Draw(t, label+".rel") > 0 {
		return genField(t, label)
	}
	v := modN(prev[rapid.IntRange(0, len(prev)-1).Draw(t, label+".of")])
	switch rapid.IntRange(0, 7).Draw(t, label+".how") {
	case 0:
		return new(big.Int).Set(v)
	case 1:
		return fSub(new(big.Int), v)
	case 2:
		return fAdd(v, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, label+".d"))))
	case 3:
		return fMul(v, big.NewInt(2))
	case 4:
		if v.Sign() != 0 {
			return fInv(v)
		}
		return big.NewInt(1)
	case 5: // the low bits alone
		w := uint(wordSizes[rapid.IntRange(0, len(wordSizes)-1).Draw(t, label+".w")])
		return modN(new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1))))
	case 6: // the same low bits
		w := uint(wordSizes[rapid.IntRange(0, len(wordSizes)-1).Draw(t, label+".w")])
		x := new(big.Int).Lsh(big.NewInt(int64(rapid.IntRange(1, 5).Draw(t, label+".hi"))), w)
		return modN(x.Add(x, v))
	}
	return fMul(v, v)
}

// genBelow draws an integer in [0,m), biased towards small values and the ends.
func genBelow(t *rapid.T, m *big.Int, label string) *big.Int {
	switch rapid.IntRange(0, 10).Draw(t, label+".k") {
	case 10: // a small number in the low bits, something else above
		v := new(big.Int).Lsh(big.NewInt(int64(rapid.IntRange(1, 6).Draw(t, label+".hi"))), uint(wordSizes[rapid.IntRange(0, len(wordSizes)-1).Draw(t, label+".w")]))
		v.Add(v, big.NewInt(int64(rapid.IntRange(0, 20).Draw(t, label))))
		return v.Mod(v, m)
	case 0, 1, 2, 3:
		return new(big.Int).Mod(big.NewInt(int64(rapid.IntRange(0, 20).Draw(t, label))), m)
	case 4:
		v := new(big.Int).Sub(m, big.NewInt(int64(rapid.IntRange(1, 5).Draw(t, label))))
		return v.Mod(v, m)
	case 5:
		v := new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, m.BitLen()).Draw(t, label)))
		v.Add(v, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(t, label+".d"))))
		return v.Mod(v, m)
	case 6:
		return new(big.Int).Mod(new(big.Int).SetUint64(rapid.Uint64().Draw(t, label)), m)
	}
	b := rapid.SliceOfN(rapid.Byte(), 36, 36).Draw(t, label)
	v := new(big.Int).SetBytes(b)
	return v.Mod(v, m)
}
func genField(t *rapid.T, label string) *big.Int { return genBelow(t, refN, label) }
func genNZ(t *rapid.T, label string) *big.Int {
	v := genField(t, label)
	if v.Sign() == 0 {
		v.SetInt64(int64(rapid.IntRange(1, 9).Draw(t, label+".nz")))
	}
	return v
}

// ---- polynomials: map from exponent to non-zero coefficient ----

type poly map[uint64]*big.Int

func denseToPoly(c []*big.Int) poly {
	p := poly{}
	for i, v := range c {
		p.add(uint64(i), v)
	}
	return p
}
func (p poly) add(k uint64, v *big.Int) {
	s := modN(v)
	if o, ok := p[k]; ok {
		s = fAdd(o, s)
	}
	if s.Sign() == 0 {
		delete(p, k)
	} else {
		p[k] = s
	}
}
func pAdd(a, b poly) poly {
	r := poly{}
	for k, v := range a {
		r.add(k, v)
	}
	for k, v := range b {
		r.add(k, v)
	}
	return r
}
func pScale(a poly, s *big.Int) poly {
	r := poly{}
	for k, v := range a {
		r.add(k, fMul(v, s))
	}
	return r
}
func pSub(a, b poly) poly { return pAdd(a, pScale(b, big.NewInt(-1))) }
func pMul(a, b poly) poly {
	r := poly{}
	for k, v := range a {
		for l, w := range b {
			r.add(k+l, fMul(v, w))
		}
	}
	return r
}
func (p poly) deg() int64 {
	d := int64(-1)
	for k := range p {
		if int64(k) > d {
			d = int64(k)
		}
	}
	return d
}
func pEval(p poly, x *big.Int) *big.Int {
	r := new(big.Int)
	for k, v := range p {
		r = fAdd(r, fMul(v, new(big.Int).Exp(modN(x), new(big.Int).SetUint64(k), refN)))
	}
	return r
}
func pEq(a, b poly) bool { return len(pSub(a, b)) == 0 }
func (p poly) String() string {
	var ks []uint64
	for k := range p {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	s := "["
	for _, k := range ks {
		s += fmt.Sprintf(" %v·x^%d", p[k], k)
	}
	return s + " ]"
}

// ---- curves, affine ----

type fp2 struct{ a, b *big.Int } // a·i + b, i² = -1 (the marshalled order: imaginary part first)

func modP(x *big.Int) *big.Int { return new(big.Int).Mod(x, refP) }
func f2(a, b *big.Int) fp2     { return fp2{modP(a), modP(b)} }
func (x fp2) add(y fp2) fp2 {
	return f2(new(big.Int).Add(x.a, y.a), new(big.Int).Add(x.b, y.b))
}
func (x fp2) sub(y fp2) fp2 {
	return f2(new(big.Int).Sub(x.a, y.a), new(big.Int).Sub(x.b, y.b))
}
func (x fp2) mul(y fp2) fp2 {
	a := new(big.Int).Add(new(big.Int).Mul(x.a, y.b), new(big.Int).Mul(x.b, y.a))
	b := new(big.Int).Sub(new(big.Int).Mul(x.b, y.b), new(big.Int).Mul(x.a, y.a))
	return f2(a, b)
}
func (x fp2) inv() fp2 {
	n := new(big.Int).Add(new(big.Int).Mul(x.a, x.a), new(big.Int).Mul(x.b, x.b))
	n.ModInverse(modP(n), refP)
	return f2(new(big.Int).Neg(new(big.Int).Mul(x.a, n)), new(big.Int).Mul(x.b, n))
}
func (x fp2) zero() bool    { return x.a.Sign() == 0 && x.b.Sign() == 0 }
func (x fp2) eq(y fp2) bool { return x.a.Cmp(y.a) == 0 && x.b.Cmp(y.b) == 0 }
func f2i(b int64) fp2       { return f2(new(big.Int), big.NewInt(b)) }

// apt is an affine point over Fp2 (G1 points have no imaginary part); inf marks infinity.
type apt struct {
	x, y fp2
	inf  bool
}

func aAdd(p, q apt) apt {
	if p.inf {
		return q
	}
	if q.inf {
		return p
	}
	var l fp2
	if p.x.eq(q.x) {
		if !p.y.eq(q.y) || p.y.zero() {
			return apt{inf: true}
		}
		l = p.x.mul(p.x).mul(f2i(3)).mul(p.y.add(p.y).inv())
	} else {
		l = q.y.sub(p.y).mul(q.x.sub(p.x).inv())
	}
	x := l.mul(l).sub(p.x).sub(q.x)
	y := l.mul(p.x.sub(x)).sub(p.y)
	return apt{x: x, y: y}
}
func aNeg(p apt) apt {
	if p.inf {
		return p
	}
	return apt{x: p.x, y: f2i(0).sub(p.y)}
}
func aMul(p apt, k *big.Int) apt {
	r := apt{inf: true}
	if k.Sign() < 0 && !p.inf { // the multiple of the opposite point
		p.y, k = f2i(0).sub(p.y), new(big.Int).Neg(k)
	}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = aAdd(r, r)
		if k.Bit(i) == 1 {
			r = aAdd(r, p)
		}
	}
	return r
}

var refG1 = apt{x: f2i(1), y: f2i(2)}
var refG2 = apt{
	x: f2(bi("11559732032986387107991004021392285783925812861821192530917403151452391805634"), bi("10857046999023057135944570762232829481370756359578518086990519993285655852781")),
	y: f2(bi("4082367875863433681332203403145435568316851327593401208105741076214120093531"), bi("8495653923123431417604973247489272438418190587263600148770280649306958101930")),
}

func be32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }
func encG1(p apt) []byte {
	if p.inf {
		return make([]byte, 64)
	}
	return append(be32(p.x.b), be32(p.y.b)...)
}
func encG2(p apt) []byte {
	if p.inf {
		return make([]byte, 128)
	}
	var o []byte
	for _, v := range []*big.Int{p.x.a, p.x.b, p.y.a, p.y.b} {
		o = append(o, be32(v)...)
	}
	return o
}

// refScalarBaseX is the x coordinate of k·g in G1 reduced into the scalar field (0 for infinity).
func refScalarBaseX(k *big.Int) *big.Int {
	p := aMul(refG1, modN(k))
	if p.inf {
		return new(big.Int)
	}
	return modN(p.x.b)
}
