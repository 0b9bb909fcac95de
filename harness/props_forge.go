package main

// S04 (a prover of our own, which does not refuse) and S06 (verification in histories).

import (
	"fmt"
	"math/big"

	bn "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
	"pgregory.net/rapid"
)

// interpolate is the polynomial of degree below len(v) with the value v[i] at i.
func interpolate(v []*big.Int) poly {
	n := len(v)
	dom := domainPoly(n)
	out := poly{}
	for i := range v {
		if v[i].Sign() == 0 {
			continue
		}
		q, _ := pDivMod(dom, poly{}.with(1, 1).with(0, -int64(i)))
		out = pAdd(out, pScale(q, fDiv(v[i], pEval(q, big.NewInt(int64(i))))))
	}
	return out
}
func domainPoly(n int) poly {
	dom := poly{0: big.NewInt(1)}
	for i := 0; i < n; i++ {
		dom = pMul(dom, poly{}.with(1, 1).with(0, -int64(i)))
	}
	return dom
}

// forge makes a proof from the key for any assignment: the division by the domain polynomial drops its remainder. f is
// the logarithm of an element F which the program does not have.
func (p *prover) forge(w []*big.Int, f *big.Int) *zkSNARK.Proof {
	n := len(p.c.rows)
	vals := func(sel func(row) poly) []*big.Int {
		v := make([]*big.Int, n)
		for i := range v {
			v[i] = pDot(sel(p.c.rows[i]), w)
		}
		return v
	}
	l, rr, o := interpolate(vals(func(x row) poly { return x.L })), interpolate(vals(func(x row) poly { return x.R })), interpolate(vals(func(x row) poly { return x.O }))
	if f.Sign() != 0 {
		l = pSub(l, poly{0: f})
		o = pSub(o, poly{0: refScalarBaseX(f)})
	}
	q, _ := pDivMod(pSub(pMul(l, rr), o), domainPoly(n))
	pk := &p.setup.Pk
	pr := &zkSNARK.Proof{PiA: new(bn.G1).Add(pk.G1.Alpha, g1inf()), PiB: g2(new(big.Int)), PiC: g1inf(), PiF: g1inf()}
	for i, x := range w {
		x = modN(x)
		pr.PiA = new(bn.G1).Add(pr.PiA, new(bn.G1).ScalarMult(pk.G1.Lx_plus_Ex[i], x))
		pr.PiB = new(bn.G2).Add(pr.PiB, new(bn.G2).ScalarMult(pk.G2.Rx[i], x))
		pr.PiF = new(bn.G1).Add(pr.PiF, new(bn.G1).ScalarMult(pk.G1.Ex[i], x))
		if i >= p.c.publics {
			pr.PiC = new(bn.G1).Add(pr.PiC, new(bn.G1).ScalarMult(pk.G1.RLEO_Delta[i-p.c.publics], x))
		}
	}
	for k, v := range q {
		pr.PiC = new(bn.G1).Add(pr.PiC, new(bn.G1).ScalarMult(pk.G1.PowersX_Domain_Delta[k], v))
	}
	if f.Sign() != 0 {
		pr.PiF = new(bn.G1).Add(pr.PiF, g1(f))
	}
	return pr
}

// shifted is an assignment for which (L-f)·R + X(g^f) = O holds in every row, if there is one: what a proof shows whose
// element F is g^f, and the verifier accepts it although no constraint has an exponent.
func (p *prover) shifted(s *snarkCase, trial int, f *big.Int) []*big.Int {
	c := p.c
	var rows []row
	for _, x := range c.rows {
		rows = append(rows, row{pAdd(x.L, poly{}.with(0, 0)), x.R, x.E, pAdd(x.O, poly{})})
		y := rows[len(rows)-1]
		y.L.add(0, fSub(new(big.Int), f))
		y.O.add(0, fSub(new(big.Int), refScalarBaseX(f)))
	}
	known := map[int]*big.Int{}
	all := c.known(bigs(s.Prog.Trials[trial].In))
	for i, n := range c.inputs {
		asserted := false
		for _, j := range s.Prog.Trials[trial].Chk {
			asserted = asserted || i == j
		}
		if j := c.wires()[n]; !asserted {
			known[j] = all[j]
		}
	}
	w, conf, free := solveRows(rows, c.n, known)
	if conf >= 0 || free > 0 {
		return nil
	}
	return w
}

func runForge(s *snarkCase, r *R) {
	c := s.open(r)
	if c == nil {
		return
	}
	p := newProver(c, s.Sparse)
	for i, t := range s.Prog.Trials {
		if t.Err {
			continue
		}
		w, err := p.witness(bigs(t.In))
		if err != nil {
			r.Failf("trial %d: no witness: %v", i, err)
		}
		if !p.verify(p.forge(w, new(big.Int)), w[:c.publics]) {
			r.Failf("trial %d: a proof made from the key for a satisfying assignment is rejected (sparse: %v)", i, s.Sparse)
		}
		for _, m := range s.Tam {
			bad := cp(w)
			k := m.At % len(bad)
			if m.Op < 5 {
				bad[k] = fAdd(bad[k], bi(m.K))
			} else {
				j := (k + m.Elem + 1) % len(bad)
				bad[j], bad[k] = bad[k], bad[j]
			}
			if firstViolated(c.rows, bad) < 0 && bad[0].Cmp(big.NewInt(1)) == 0 {
				continue
			}
			r.NonTrivial()
			if p.verify(p.forge(bad, new(big.Int)), bad[:c.publics]) {
				r.Failf("a proof made from the key for wire %d changed is accepted, though constraint %d is violated (sparse: %v)", k, firstViolated(c.rows, bad), s.Sparse)
			}
		}
		for _, m := range s.Tam {
			f := bi(m.K)
			bad := p.shifted(s, i, f)
			if bad == nil || firstViolated(c.rows, bad) < 0 {
				continue
			}
			r.Label("another element F")
			if p.verify(p.forge(bad, f), bad[:c.publics]) {
				r.Failf("a proof made from the key with F = g^%v is accepted for %v, though constraint %d is violated (sparse: %v)", f, bad, firstViolated(c.rows, bad), s.Sparse)
			}
		}
		for _, bad := range otherOnes(c, s, i, w) {
			if p.verify(p.forge(bad, new(big.Int)), bad[:c.publics]) {
				r.Failf("a proof made from the key is accepted, though the constant one is %v: %v", bad[0], bad)
			}
		}
	}
}

func diff(a, b []*big.Int) []*big.Int {
	d := make([]*big.Int, len(a))
	for i := range a {
		d[i] = fSub(modN(a[i]), modN(b[i]))
	}
	return d
}

// ---- S06 ----

type verHistory struct {
	A, B    progCase
	Sparse  []bool
	SameKey bool // the second key is another setup of the first program
	OneVar  bool // every key is copied into one variable
	Ops     []verOp
}
type verOp struct {
	Op, I, J int
	K        string
	Debug    bool
}

func genVerHistory(t *rapid.T) verHistory {
	pr := profile{depth: 2, stmts: 2, div: true, funcs: true, ctrl: true, equals: true, outs: 2, maxMuls: 12}
	h := verHistory{SameKey: rapid.Bool().Draw(t, "samekey"), OneVar: rapid.Bool().Draw(t, "onevar")}
	h.A, _ = genProg(t, pr, 2)
	h.B, _ = genProg(t, pr, 1)
	h.Sparse = []bool{rapid.Bool().Draw(t, "sparse"), rapid.Bool().Draw(t, "sparse")}
	for n := rapid.IntRange(6, 20).Draw(t, "nops"); n > 0; n-- {
		k := new(big.Int).Add(genNZ(t, "k"), big.NewInt(5))
		h.Ops = append(h.Ops, verOp{rapid.IntRange(0, 9).Draw(t, "op"), rapid.IntRange(0, 40).Draw(t, "i"), rapid.IntRange(0, 40).Draw(t, "j"), k.String(), rapid.Bool().Draw(t, "debug")})
	}
	return h
}

func runVerHistory(h *verHistory, r *R) {
	type known struct {
		key     int
		proof   *zkSNARK.Proof
		signals []*big.Int
	}
	var provers []*prover
	var proofs []known
	b := &h.B
	if h.SameKey {
		b = &h.A
	}
	for i, pc := range []*progCase{&h.A, b} {
		s := snarkCase{Prog: *pc, Sparse: h.Sparse[i]}
		c := s.open(r)
		if c == nil {
			continue
		}
		p := newProver(c, s.Sparse)
		ws, prs := s.honest(r, p)
		for k := range ws {
			proofs = append(proofs, known{len(provers), prs[k], cp(ws[k][:c.publics])})
		}
		provers = append(provers, p)
	}
	if len(proofs) == 0 {
		return
	}
	inf2 := g2(new(big.Int))
	cur := &zkSNARK.Proof{PiA: g1inf(), PiB: g2(new(big.Int)), PiC: g1inf(), PiF: g1inf()}
	var signals []*big.Int
	var theKey zkSNARK.Pk
	key := proofs[0].key
	load := func(k known) { // into the very same variables
		cur.PiA.Add(k.proof.PiA, g1inf())
		cur.PiB.Add(k.proof.PiB, inf2)
		cur.PiC.Add(k.proof.PiC, g1inf())
		cur.PiF.Add(k.proof.PiF, g1inf())
	}
	loadSignals := func(k known) {
		if len(signals) != len(k.signals) {
			signals = cp(k.signals)
			return
		}
		for i := range signals {
			signals[i].Set(k.signals[i])
		}
	}
	load(proofs[0])
	loadSignals(proofs[0])
	accepted, refused := 0, 0
	verify := func(step int, debug bool) {
		pv := provers[key]
		want := false
		for _, k := range proofs {
			if k.key == key && sameProof(cur, k.proof) && len(signals) == len(k.signals) && modN(signals[0]).Cmp(big.NewInt(1)) == 0 && !columnsUsed(pv.c.rows, diff(signals, k.signals)) {
				want = true
			}
		}
		before := fmt.Sprint(signals)
		pb := [][]byte{cur.PiA.Marshal(), cur.PiB.Marshal(), cur.PiC.Marshal(), cur.PiF.Marshal()}
		pk := &pv.setup.Pk
		if h.OneVar { // every key in the same variable
			theKey = *pk
			pk = &theKey
		}
		got := zkSNARK.VerifyProof(pk, cur, signals, debug)
		if got != want {
			r.Failf("step %d: verification says %v, want %v (key %d, signals %v)", step, got, want, key, signals)
		}
		if fmt.Sprint(signals) != before || fmt.Sprint([][]byte{cur.PiA.Marshal(), cur.PiB.Marshal(), cur.PiC.Marshal(), cur.PiF.Marshal()}) != fmt.Sprint(pb) {
			r.Failf("step %d: verification changed the proof or the signals", step)
		}
		if got {
			accepted++
		} else {
			refused++
		}
	}
	verify(-1, false)
	for i, o := range h.Ops {
		k := bi(o.K)
		switch o.Op {
		case 0, 1: // another proof with its signals and key
			n := proofs[o.I%len(proofs)]
			load(n)
			loadSignals(n)
			key = n.key
		case 2:
			load(proofs[o.I%len(proofs)])
		case 3:
			loadSignals(proofs[o.I%len(proofs)])
		case 4: // an element changes
			switch o.J % 4 {
			case 0:
				cur.PiA.Add(cur.PiA, g1(k))
			case 1:
				cur.PiB.Add(cur.PiB, g2(k))
			case 2:
				cur.PiC.Add(cur.PiC, g1(k))
			case 3:
				cur.PiF.Add(cur.PiF, g1(k))
			}
		case 5: // a signal changes
			signals[o.I%len(signals)].Add(signals[o.I%len(signals)], k)
		case 6: // the same residue
			s := signals[o.I%len(signals)]
			s.Add(s, new(big.Int).Mul(refN, big.NewInt([]int64{1, 2, 3, -1, -2}[o.J%5])))
		case 7: // the same elements in another representation
			m := modN(new(big.Int).Neg(k))
			cur.PiA.Add(new(bn.G1).Add(cur.PiA, g1(k)), g1(m))
			cur.PiB.Add(new(bn.G2).Add(cur.PiB, g2(k)), g2(m))
			cur.PiC.Add(new(bn.G1).Add(cur.PiC, g1(k)), g1(m))
		case 8: // sent over a wire
			n := &zkSNARK.Proof{PiA: new(bn.G1), PiB: new(bn.G2), PiC: new(bn.G1), PiF: new(bn.G1)}
			_, e1 := n.PiA.Unmarshal(cur.PiA.Marshal())
			_, e2 := n.PiB.Unmarshal(cur.PiB.Marshal())
			_, e3 := n.PiC.Unmarshal(cur.PiC.Marshal())
			_, e4 := n.PiF.Unmarshal(cur.PiF.Marshal())
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
				r.Failf("step %d: a proof cannot be unmarshalled: %v %v %v %v", i, e1, e2, e3, e4)
			}
			cur = n
		case 9: // another key
			key = o.I % len(provers)
		}
		verify(i, o.Debug)
	}
	r.NonTrivialIf(accepted > 1 && refused > 1)
	r.LabelIf(len(provers) > 1 && h.SameKey, "two keys of one program")
	r.LabelIf(len(provers) > 1 && !h.SameKey, "keys of two programs")
}

func init() {
	register("S06", mk("verification histories", "some verifications succeed and some fail", 110, 2500, genVerHistory, runVerHistory))
}
