package main

// Reference GF(p^12) = Fp2[w]/(w^6 - xi), xi = i+9, and a textbook optimal ate pairing in affine coordinates.

import "math/big"

type fp12 [6]fp2

var refXi = f2i(9).add(f2(big.NewInt(1), new(big.Int)))

func f12zero() (r fp12) {
	for i := range r {
		r[i] = f2i(0)
	}
	return
}
func f12one() fp12 { r := f12zero(); r[0] = f2i(1); return r }
func (a fp12) mul(b fp12) fp12 {
	r := f12zero()
	for i := range a {
		if a[i].zero() {
			continue
		}
		for j := range b {
			if b[j].zero() {
				continue
			}
			m := a[i].mul(b[j])
			k := i + j
			if k >= 6 {
				k -= 6
				m = m.mul(refXi)
			}
			r[k] = r[k].add(m)
		}
	}
	return r
}
func (a fp12) exp(e *big.Int) fp12 {
	r := f12one()
	if e.Sign() < 0 { // only asked of elements of order n
		e = modN(e)
	}
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r)
		if e.Bit(i) == 1 {
			r = r.mul(a)
		}
	}
	return r
}
func (a fp12) eq(b fp12) bool {
	for i := range a {
		if !a[i].eq(b[i]) {
			return false
		}
	}
	return true
}

// the marshalled order: (x: x y z)(y: x y z), value (x.x t^2 + x.y t + x.z) w + (y.x t^2 + y.y t + y.z), t = w^2
var gtOrder = [6]int{5, 3, 1, 4, 2, 0}

func decGT(b []byte) fp12 {
	r := f12zero()
	for i, w := range gtOrder {
		r[w] = f2(new(big.Int).SetBytes(b[64*i:64*i+32]), new(big.Int).SetBytes(b[64*i+32:64*i+64]))
	}
	return r
}
func encGT(v fp12) (o []byte) {
	for _, w := range gtOrder {
		o = append(o, be32(v[w].a)...)
		o = append(o, be32(v[w].b)...)
	}
	return
}

// refLine is the line through the untwisted points r and q (tangent if equal) at the G1 point p, times a factor
// in a proper subfield, and r+q on the twist.
// untwist: (x,y) -> (x w^2, y w^3); line l(P) = yP - yR w^3 - m w (xP - xR w^2), m the slope on the twist.
func refLine(r, q apt, p apt) (fp12, apt) {
	var m fp2
	if r.x.eq(q.x) && r.y.eq(q.y) {
		m = r.x.mul(r.x).mul(f2i(3)).mul(r.y.add(r.y).inv())
	} else {
		m = q.y.sub(r.y).mul(q.x.sub(r.x).inv())
	}
	l := f12zero()
	l[0] = p.y
	l[1] = f2i(0).sub(m.mul(p.x))
	l[3] = m.mul(r.x).sub(r.y)
	return l, aAdd(r, q)
}

func conj(x fp2) fp2 { return f2(new(big.Int).Neg(x.a), x.b) }
func (x fp2) exp(e *big.Int) fp2 {
	r := f2i(1)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.mul(r)
		if e.Bit(i) == 1 {
			r = r.mul(x)
		}
	}
	return r
}

// refPair: f_{6u+2,Q}(P) · l_{(6u+2)Q,pi(Q)}(P) · l_{(6u+2)Q+pi(Q),-pi^2(Q)}(P), to the power (p^12-1)/n.
func refPair(p, q apt) fp12 {
	if p.inf || q.inf {
		return f12one()
	}
	s := new(big.Int).Mul(refU, big.NewInt(6))
	s.Add(s, big.NewInt(2))
	f, r := f12one(), q
	for i := s.BitLen() - 2; i >= 0; i-- {
		var l fp12
		l, r2 := refLine(r, r, p)
		f, r = f.mul(f).mul(l), r2
		if s.Bit(i) == 1 {
			l, r2 = refLine(r, q, p)
			f, r = f.mul(l), r2
		}
	}
	// Frobenius on the twist: x -> conj(x) xi^((p-1)/3), y -> conj(y) xi^((p-1)/2)
	e := new(big.Int).Sub(refP, big.NewInt(1))
	c3 := refXi.exp(new(big.Int).Div(e, big.NewInt(3)))
	c2 := refXi.exp(new(big.Int).Div(e, big.NewInt(2)))
	frob := func(a apt) apt { return apt{x: conj(a.x).mul(c3), y: conj(a.y).mul(c2)} }
	q1 := frob(q)
	q2 := aNeg(frob(q1))
	l, r2 := refLine(r, q1, p)
	f = f.mul(l)
	l, _ = refLine(r2, q2, p)
	f = f.mul(l)
	fe := new(big.Int).Exp(refP, big.NewInt(12), nil)
	fe.Sub(fe, big.NewInt(1))
	return f.exp(fe.Div(fe, refN))
}
