package main

// S01-S04: proofs of compiled programs.

import (
	"bytes"
	"fmt"
	"math/big"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
	"pgregory.net/rapid"
)

// prover is one of the two ways to prove: over dense or over sparse polynomials.
type prover struct {
	c      *compiled
	sparse bool
	td     *cc.ER1CSTransposed
	ts     *cc.ER1CSsPARSETransposed
	setup  *zkSNARK.Setup
}

func newProver(c *compiled, sparse bool) *prover {
	p := &prover{c: c, sparse: sparse}
	var err error
	if sparse {
		p.ts = c.sparse.TransposeSparse()
		p.setup, err = zkSNARK.GenerateTrustedSetupSparse(c.publics, p.ts)
	} else {
		p.td = c.dense.Transpose()
		p.setup, err = zkSNARK.GenerateTrustedSetup(c.publics, p.td)
	}
	if err != nil {
		panic(failure{"no setup: " + err.Error()})
	}
	return p
}

func cp(w []*big.Int) []*big.Int {
	var out []*big.Int
	for _, x := range w {
		out = append(out, new(big.Int).Set(x))
	}
	return out
}

func (p *prover) witness(in []*big.Int) ([]*big.Int, error) {
	if p.sparse {
		return p.c.witSparse(in)
	}
	return p.c.witDense(in)
}

// prove returns nil and the reason if the prover refuses.
func (p *prover) prove(w []*big.Int) (proof *zkSNARK.Proof, why string) {
	defer func() {
		if e := recover(); e != nil {
			proof, why = nil, fmt.Sprint(e)
		}
	}()
	var err error
	if p.sparse {
		proof, err = zkSNARK.GenerateProof_Sparse(p.c.publics, &p.setup.Pk, cp(w), zkSNARK.CombineSparsePolynomials(cp(w), p.ts))
	} else {
		proof, err = zkSNARK.GenerateProofs(p.c.publics, &p.setup.Pk, cp(w), zkSNARK.CombinePolynomials2(cp(w), p.td))
	}
	if err != nil {
		return nil, err.Error()
	}
	return proof, ""
}

func (p *prover) verify(pr *zkSNARK.Proof, signals []*big.Int) bool {
	return zkSNARK.VerifyProof(&p.setup.Pk, pr, cp(signals), false)
}

type snarkCase struct {
	Prog    progCase
	Sparse  bool
	Tam     []edit
	Publics int // if not 0, the setup has another number of public wires than the program declares
	Seed    int // which of several alternatives
	Mix     []int
}

type edit struct {
	Elem, Op, At int
	K            string
}

func genSnark(tampers int) func(t *rapid.T) snarkCase {
	return func(t *rapid.T) snarkCase {
		pr := profile{depth: 2, stmts: 3, div: true, funcs: true, ctrl: true, arrays: true, equals: true, outs: 2, maxMuls: 25}
		c, _ := genProg(t, pr, 2)
		return snarkFor(t, c, tampers)
	}
}

func snarkFor(t *rapid.T, c progCase, tampers int) snarkCase {
	s := snarkCase{Prog: c, Sparse: rapid.Bool().Draw(t, "sparse")}
	for i := 0; i < tampers; i++ {
		s.Tam = append(s.Tam, edit{rapid.IntRange(0, 3).Draw(t, "elem"), rapid.IntRange(0, 5).Draw(t, "op"), rapid.IntRange(0, 40).Draw(t, "at"), genNZ(t, "k").String()})
	}
	if tampers == 0 && rapid.IntRange(0, 2).Draw(t, "otherpublics") == 0 {
		s.Publics = rapid.IntRange(1, 60).Draw(t, "publics")
	}
	if tampers == 8 {
		s.Mix = rapid.SliceOfN(rapid.IntRange(1, 14), 2, 4).Draw(t, "mix")
	}
	return s
}

// open compiles the program of a case; nil if it is outside of what can be proven (or costs too much).
func (s *snarkCase) open(r *R) *compiled {
	for _, t := range s.Prog.Trials {
		if !t.Err {
			c := compileCase(&s.Prog)
			switch {
			case len(c.rows) == 0:
				r.Label("no constraints")
			case c.publics >= c.n:
				r.Label("everything public")
			case s.Prog.Sys == nil && (len(c.rows) > 45 || c.n > 60) || len(c.rows) > 200 || c.n > 200:
				r.Label("too large")
			default:
				r.LabelIf(c.publics > 1, "public inputs")
				r.LabelIf(len(c.rows) == 1, "one constraint")
				r.LabelIf(s.Sparse, "sparse")
				r.LabelIf(!s.Sparse, "dense")
				return c
			}
			return nil
		}
	}
	return nil
}

// honest proves the valid trials of a case and checks that the proofs are accepted.
func (s *snarkCase) honest(r *R, p *prover) (ws [][]*big.Int, proofs []*zkSNARK.Proof) {
	for i, t := range s.Prog.Trials {
		if t.Err {
			continue
		}
		w, err := p.witness(bigs(t.In))
		if err != nil {
			r.Failf("trial %d: no witness: %v", i, err)
		}
		pr, why := p.prove(w)
		if pr == nil {
			r.Failf("trial %d: no proof for a satisfying assignment: %s", i, why)
		}
		if !p.verify(pr, w[:p.c.publics]) {
			r.Failf("trial %d: a valid proof (sparse: %v) is rejected, public signals %v", i, p.sparse, w[:p.c.publics])
		}
		ws, proofs = append(ws, w), append(proofs, pr)
	}
	return
}

func runComplete(s *snarkCase, r *R) {
	c := s.open(r)
	if c == nil {
		return
	}
	if s.Publics > 0 {
		c.publics = 1 + s.Publics%(c.n-1)
		r.Label("another number of public wires")
	}
	for _, sparse := range []bool{false, true} {
		p := newProver(c, sparse)
		ws, proofs := s.honest(r, p)
		// the verifier only needs what is public, and verifying does not use a proof up
		for i := range proofs {
			if !p.verify(proofs[i], ws[i][:c.publics]) {
				r.Failf("a proof is rejected when it is verified for the second time (sparse: %v)", sparse)
			}
		}
		r.LabelIf(len(proofs) > 1, "several proofs from one setup")
		r.NonTrivialIf(len(c.rows) > 1 && len(proofs) > 0)
	}
}

// extCase is a program with exponents whose combined exponent polynomial is constant for its inputs: there, and only
// there, the extension is complete (DESIGN.md).
type extCase struct {
	Src     string
	In      []string
	Publics int
	T       string // the exponent
}

func genExtProof(t *rapid.T) extCase {
	n := rapid.IntRange(1, 3).Draw(t, "inputs")
	T := genField(t, "T")
	if rapid.IntRange(0, 2).Draw(t, "Tk") == 0 {
		T = new(big.Int)
	}
	c := extCase{T: T.String(), Publics: rapid.IntRange(0, 20).Draw(t, "publics")}
	var vals []*big.Int
	params := ""
	for i := 0; i < n; i++ {
		v := genField(t, "in")
		vals, c.In = append(vals, v), append(c.In, v.String())
		params += fmt.Sprintf(", a%d", i)[2*b2i(i == 0):]
	}
	body, outs := "", ""
	if k := rapid.IntRange(0, n).Draw(t, "public"); k > 0 {
		body += "public{"
		for i := 0; i < k; i++ {
			body += fmt.Sprintf(", a%d", i)[2*b2i(i == 0):]
		}
		body += "}\n"
	}
	m := rapid.IntRange(1, 4).Draw(t, "gates")
	for i := 0; i < m; i++ { // linear combinations of the inputs with value T
		e, v := "", new(big.Int)
		for j := rapid.IntRange(1, 3).Draw(t, "terms"); j > 0; j-- {
			x := rapid.IntRange(0, n-1).Draw(t, "x")
			k := big.NewInt(int64(rapid.IntRange(1, 9).Draw(t, "k")))
			if i > 0 && j == 1 {
				k.SetInt64(int64(10 + i)) // no two gates alike
			}
			e += fmt.Sprintf("a%d*%v + ", x, k)
			v = fAdd(v, fMul(vals[x], k))
		}
		if i > 0 && T.Sign() != 0 { // each one of use to the next
			e += fmt.Sprintf("y%d*3 + ", i-1)
			v = fAdd(v, fMul(refScalarBaseX(T), big.NewInt(3)))
		}
		body += fmt.Sprintf("var y%d = scalarBaseMultiply(%s%v)\n", i, e, fSub(T, v))
		if i > 0 {
			outs += " + "
		}
		outs += fmt.Sprintf("y%d*%d", i, i+2)
	}
	if T.Sign() == 0 {
		for i := rapid.IntRange(0, 3).Draw(t, "products"); i > 0; i-- {
			body += fmt.Sprintf("var z%d = (a%d+%d)*(a0+y0+%d)\n", i, i%n, i, i*i)
			outs += fmt.Sprintf(" + z%d", i)
		}
	}
	if T.Sign() != 0 {
		outs = fmt.Sprintf("y%d", m-1)
	}
	c.Src = fmt.Sprintf("func main(%s){\n%sreturn %s\n}\n", params, body, outs)
	return c
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runExtProof(s *extCase, r *R) {
	c := compileSrc(s.Src)
	w, err := c.witDense(bigs(s.In))
	if err != nil {
		r.Failf("no witness: %v", err)
	}
	for _, x := range c.rows {
		if pDot(x.E, w).Cmp(bi(s.T)) != 0 {
			r.Label("an exponent differs")
			return
		}
	}
	if s.Publics > 0 {
		c.publics = 1 + s.Publics%(c.n-1)
	}
	for _, sparse := range []bool{false, true} {
		p := newProver(c, sparse)
		pr, why := p.prove(w)
		if pr == nil {
			r.Failf("no proof for a satisfying assignment (sparse: %v): %s", sparse, why)
		}
		if !p.verify(pr, w[:c.publics]) {
			r.Failf("a valid proof (sparse: %v) is rejected, public signals %v", sparse, w[:c.publics])
		}
		r.LabelIf(len(c.rows) == 1, "one constraint")
		r.LabelIf(len(c.rows) > 1, "several constraints")
		r.LabelIf(bi(s.T).Sign() == 0, "exponent zero")
		r.NonTrivial()
	}
}

// columnsUsed: changing the wires by d changes the value of some column of some constraint.
func columnsUsed(rows []row, d []*big.Int) bool {
	for _, x := range rows {
		for _, q := range []poly{x.L, x.R, x.E, x.O} {
			s := new(big.Int)
			for k, v := range q {
				if int(k) < len(d) {
					s = fAdd(s, fMul(v, d[k]))
				}
			}
			if s.Sign() != 0 {
				return true
			}
		}
	}
	return false
}

func runBound(s *snarkCase, r *R) {
	c := s.open(r)
	if c == nil {
		return
	}
	p := newProver(c, s.Sparse)
	ws, proofs := s.honest(r, p)
	if len(proofs) == 0 {
		return
	}
	w, proof := ws[0], proofs[0]
	signals := w[:c.publics]
	try := func(other []*big.Int, what string) {
		if len(other) == len(signals) {
			d := make([]*big.Int, len(other))
			for i := range d {
				d[i] = fSub(modN(other[i]), modN(signals[i]))
			}
			if !columnsUsed(c.rows, d) && d[0].Sign() == 0 {
				return
			}
			r.NonTrivial()
			r.Label(what)
		}
		if p.verify(proof, other) {
			r.Failf("a proof for the public signals %v is accepted for %v (%s)", signals, other, what)
		}
	}
	for _, t := range s.Tam {
		o := cp(signals)
		i := t.At % len(o)
		switch t.Op {
		case 0, 1, 2:
			o[i] = fAdd(o[i], bi(t.K))
			try(o, "one signal changed")
		case 3:
			j := (i + 1 + t.Elem) % len(o)
			o[i], o[j] = o[j], o[i]
			try(o, "signals exchanged")
		case 4:
			for k := range o {
				o[k] = fMul(o[k], bi(t.K))
			}
			try(o, "signals scaled")
		case 5:
			o[i] = new(big.Int)
			try(o, "signal zero")
		}
	}
	if len(ws) > 1 {
		try(ws[1][:c.publics], "signals of another proof")
	}
	if p.verify(proof, append(cp(signals), big.NewInt(0))) || p.verify(proof, append(cp(signals), big.NewInt(1))) {
		r.Failf("accepted with an additional signal")
	}
	if p.verify(proof, signals[:len(signals)-1]) {
		r.Failf("accepted with a signal less")
	}
	// another setup of the same program
	q := newProver(c, s.Sparse != (s.Seed == 1))
	if q.verify(proof, signals) {
		r.Failf("a proof is accepted under another setup")
	}
}

func sameProof(a, b *zkSNARK.Proof) bool {
	return bytes.Equal(a.PiA.Marshal(), b.PiA.Marshal()) && bytes.Equal(a.PiB.Marshal(), b.PiB.Marshal()) && bytes.Equal(a.PiC.Marshal(), b.PiC.Marshal()) && bytes.Equal(a.PiF.Marshal(), b.PiF.Marshal())
}

func runTamper(s *snarkCase, r *R) {
	c := s.open(r)
	if c == nil {
		return
	}
	p := newProver(c, s.Sparse)
	ws, proofs := s.honest(r, p)
	if len(proofs) == 0 {
		return
	}
	proof, signals := proofs[0], ws[0][:c.publics]
	before := &zkSNARK.Proof{PiA: new(bn.G1).Add(proof.PiA, g1inf()), PiB: proof.PiB, PiC: proof.PiC, PiF: proof.PiF}
	for _, t := range s.Tam {
		q := *proof
		k := bi(t.K)
		if m := modN(k); t.Elem == 3 && (m.Cmp(big.NewInt(1)) == 0 || m.Cmp(modN(big.NewInt(-1))) == 0) {
			// the x-coordinate of ±G is 1, so with element B being ±H the equation would hold indeed
			k = big.NewInt(2)
		}
		f1 := func(e *bn.G1, other *bn.G1) *bn.G1 {
			switch t.Op {
			case 0:
				return new(bn.G1).Add(e, new(bn.G1).ScalarBaseMult(k))
			case 1:
				return new(bn.G1).ScalarMult(e, k)
			case 2:
				return new(bn.G1).Neg(e)
			case 3:
				return g1inf()
			case 4:
				return new(bn.G1).ScalarBaseMult(k)
			}
			return other
		}
		last := proofs[len(proofs)-1]
		switch t.Elem {
		case 0:
			q.PiA = f1(q.PiA, last.PiA)
		case 1:
			switch t.Op {
			case 0:
				q.PiB = new(bn.G2).Add(q.PiB, new(bn.G2).ScalarBaseMult(k))
			case 1:
				q.PiB = new(bn.G2).ScalarMult(q.PiB, k)
			case 2:
				q.PiB = new(bn.G2).ScalarMult(q.PiB, new(big.Int).Sub(bn.Order, big.NewInt(1)))
			case 3:
				q.PiB = new(bn.G2).ScalarBaseMult(new(big.Int))
			case 4:
				q.PiB = new(bn.G2).ScalarBaseMult(k)
			case 5:
				q.PiB = last.PiB
			}
		case 2:
			q.PiC = f1(q.PiC, last.PiC)
		case 3:
			q.PiF = f1(q.PiF, last.PiF)
		}
		if sameProof(&q, proof) {
			r.Label("no change")
			continue
		}
		r.NonTrivial()
		r.Label([]string{"A", "B", "C", "F"}[t.Elem])
		if p.verify(&q, signals) {
			r.Failf("accepted after element %s of the proof was changed (operation %d, %v)", []string{"A", "B", "C", "F"}[t.Elem], t.Op, k)
		}
	}
	// some elements of another proof
	for _, m := range s.Mix {
		o := proofs[len(proofs)-1]
		q := *proof
		if m&1 != 0 {
			q.PiA = o.PiA
		}
		if m&2 != 0 {
			q.PiB = o.PiB
		}
		if m&4 != 0 {
			q.PiC = o.PiC
		}
		if m&8 != 0 {
			q.PiF = o.PiF
		}
		if !sameProof(&q, proof) && !sameProof(&q, o) {
			r.Label("elements of two proofs")
			for i, sg := range [][]*big.Int{signals, ws[len(ws)-1][:c.publics]} {
				if p.verify(&q, sg) {
					r.Failf("elements of two proofs (mask %d) are accepted with the signals of proof %d", m, i+1)
				}
			}
		}
	}
	// another proof's elements altogether: accepted only with its own public signals
	if !sameProof(proof, before) || !p.verify(proof, signals) {
		r.Failf("verifying proofs changed the proof or the key")
	}
}

func g1inf() *bn.G1 { return new(bn.G1).ScalarBaseMult(new(big.Int)) }

func runUnsat(s *snarkCase, r *R) {
	c := s.open(r)
	if c == nil {
		return
	}
	p := newProver(c, s.Sparse)
	for i, t := range s.Prog.Trials {
		if t.Err {
			continue
		}
		w, err := p.witness(bigs(t.In))
		if err != nil {
			r.Failf("trial %d: no witness: %v", i, err)
		}
		for _, m := range s.Tam {
			bad := cp(w)
			k := m.At % len(bad)
			switch m.Op {
			case 0, 1, 2, 3:
				bad[k] = fAdd(bad[k], bi(m.K))
			case 4:
				j := (k + m.Elem + 1) % len(bad)
				bad[j], bad[k] = bad[k], bad[j]
			case 5:
				for l := range bad[1:] {
					bad[l+1] = fMul(bad[l+1], bi(m.K))
				}
			}
			// an assignment that satisfies all constraints is provable, any other one is not
			sat := firstViolated(c.rows, bad) < 0 && bad[0].Cmp(big.NewInt(1)) == 0
			pr, _ := p.prove(bad)
			if sat {
				r.Label("still satisfied")
				if pr == nil {
					r.Failf("no proof for an assignment that satisfies all constraints")
				}
				if !p.verify(pr, bad[:c.publics]) {
					r.Failf("the proof for an assignment that satisfies all constraints is rejected")
				}
				continue
			}
			r.NonTrivial()
			if pr != nil && p.verify(pr, bad[:c.publics]) {
				r.Failf("wire %d changed: constraint %d is violated or the first wire is not 1, but the proof is accepted: %v", k, firstViolated(c.rows, bad), bad)
			}
			r.LabelIf(pr != nil, "proof generated and rejected")
		}
		for _, bad := range otherOnes(c, s, i, w) {
			if firstViolated(c.rows, bad) >= 0 {
				continue
			}
			r.Label("all constraints hold, the first wire is not 1")
			if pr, _ := p.prove(bad); pr != nil && p.verify(pr, bad[:c.publics]) {
				r.Failf("an assignment in which the constant one is %v is accepted: %v", bad[0], bad)
			}
		}
	}
}

// otherOnes are assignments that may satisfy the rows, but have another value in the place of the constant one.
func otherOnes(c *compiled, s *snarkCase, trial int, w []*big.Int) (out [][]*big.Int) {
	zero := make([]*big.Int, c.n)
	for i := range zero {
		zero[i] = new(big.Int)
	}
	out = append(out, zero)
	t := s.Prog.Trials[trial]
	for k, m := range s.Tam {
		one := bi(m.K)
		if k == 0 {
			one = new(big.Int)
		}
		if one.Cmp(big.NewInt(1)) == 0 {
			continue
		}
		bad := cp(w)
		bad[0] = one
		out = append(out, bad)
		known := map[int]*big.Int{0: one}
		all := c.known(bigs(t.In))
		for i, n := range c.inputs {
			asserted := false
			for _, j := range t.Chk {
				asserted = asserted || i == j
			}
			if j := c.wires()[n]; !asserted {
				known[j] = all[j]
			}
		}
		if v, conf, free := solveRows(c.rows, c.n, known); conf < 0 && free == 0 {
			out = append(out, v)
		}
	}
	return
}

type setupCase struct {
	Prog      progCase
	Sparse    bool
	Randomize bool
	Rho       string
}

func genSetup(t *rapid.T) setupCase {
	ext := rapid.Bool().Draw(t, "ext")
	c, _ := genProg(t, profile{depth: 2, stmts: 3, div: true, funcs: true, ctrl: true, arrays: true, equals: true, ext: ext, outs: 2, maxMuls: 15}, 1)
	return setupCase{c, rapid.Bool().Draw(t, "sparse"), rapid.IntRange(0, 3).Draw(t, "randomize") == 0, genNZ(t, "rho").String()}
}

func runSetup(s *setupCase, r *R) {
	if s.Prog.Trials[0].Err {
		return
	}
	c := compileSrcR(s.Prog.Src, s.Randomize)
	n := len(c.rows)
	if n == 0 || c.publics >= c.n || n > 40 || c.n > 60 {
		r.Label("out of bounds")
		return
	}
	p := newProver(c, s.Sparse)
	pk := &p.setup.Pk
	g, h := g1(big.NewInt(1)), g2(big.NewInt(1))
	if len(pk.G1.PowersX) != n || len(pk.G2.PowersX) != n || len(pk.G1.PowersX_Domain_Delta) != n || len(pk.G1.Lx_plus_Ex) != c.n || len(pk.G1.Ex) != c.n || len(pk.G2.Rx) != c.n || len(pk.G1.RLEO_Gamma) != c.publics || len(pk.G1.RLEO_Delta) != c.n-c.publics {
		r.Failf("sizes of the key: %d powers for %d constraints, %d+%d elements for %d wires, %d of them public", len(pk.G1.PowersX), n, len(pk.G1.RLEO_Gamma), len(pk.G1.RLEO_Delta), c.n, c.publics)
	}
	pair := func(a *bn.G1, b *bn.G2) []byte { return bn.Pair(a, b).Marshal() }
	same := func(what string, a *bn.G1, b *bn.G2, c *bn.G1, d *bn.G2) {
		if !bytes.Equal(pair(a, b), pair(c, d)) {
			r.Failf("%s (sparse: %v)", what, s.Sparse)
		}
	}
	same("beta differs between the groups", pk.G1.Beta, h, g, pk.G2.Beta)
	same("delta differs between the groups", pk.G1.Delta, h, g, pk.G2.Delta)
	if !bytes.Equal(pk.G1.PowersX[0].Marshal(), g.Marshal()) || !bytes.Equal(pk.G2.PowersX[0].Marshal(), h.Marshal()) {
		r.Failf("the power with exponent zero is not the generator")
	}
	for i := 1; i < n; i++ {
		same(fmt.Sprintf("power %d differs between the groups", i), pk.G1.PowersX[i], h, g, pk.G2.PowersX[i])
		same(fmt.Sprintf("power %d is not the product of the power before and x", i), pk.G1.PowersX[i], h, pk.G1.PowersX[i-1], pk.G2.PowersX[1])
		same(fmt.Sprintf("element %d of the domain powers is not the product of the one before and x", i), pk.G1.PowersX_Domain_Delta[i], h, pk.G1.PowersX_Domain_Delta[i-1], pk.G2.PowersX[1])
	}
	at := func(q poly) *bn.G1 { // the polynomial at x
		sum := g1inf()
		for k, v := range q {
			sum = new(bn.G1).Add(sum, new(bn.G1).ScalarMult(pk.G1.PowersX[k], v))
		}
		return sum
	}
	at2 := func(q poly) *bn.G2 {
		sum := g2(new(big.Int))
		for k, v := range q {
			sum = new(bn.G2).Add(sum, new(bn.G2).ScalarMult(pk.G2.PowersX[k], v))
		}
		return sum
	}
	if n > 1 {
		// D(x) = low + x^n
		dom := poly{0: big.NewInt(1)}
		for i := 0; i < n; i++ {
			f := poly{}
			f.add(1, big.NewInt(1))
			f.add(0, big.NewInt(int64(-i)))
			dom = pMul(dom, f)
		}
		delete(dom, uint64(n))
		rhs := new(bn.GT).Add(bn.Pair(at(dom), h), bn.Pair(pk.G1.PowersX[n-1], pk.G2.PowersX[1]))
		if !bytes.Equal(pair(pk.G1.PowersX_Domain_Delta[0], pk.G2.Delta), rhs.Marshal()) {
			r.Failf("the domain polynomial in the key is not the one that vanishes at the %d constraints (sparse: %v)", n, s.Sparse)
		}
	}
	// columns of the constraints, weighted with powers of rho, for the wires from..to
	basis := make([]poly, n)
	for j := range basis {
		b := poly{0: big.NewInt(1)}
		for i := 0; i < n; i++ {
			if i != j {
				f := poly{}
				f.add(1, big.NewInt(1))
				f.add(0, big.NewInt(int64(-i)))
				b = pScale(pMul(b, f), fInv(big.NewInt(int64(j-i))))
			}
		}
		basis[j] = b
	}
	rho := make([]*big.Int, c.n)
	x := big.NewInt(1)
	for i := range rho {
		rho[i] = x
		x = fMul(x, bi(s.Rho))
	}
	column := func(sel func(row) poly, from, to int) poly {
		out := poly{}
		for j, q := range c.rows {
			v := new(big.Int)
			for k, co := range sel(q) {
				if int(k) >= from && int(k) < to {
					v = fAdd(v, fMul(co, rho[k]))
				}
			}
			out = pAdd(out, pScale(basis[j], v))
		}
		return out
	}
	sum1 := func(es []*bn.G1, from int) *bn.G1 {
		sum := g1inf()
		for i, e := range es {
			sum = new(bn.G1).Add(sum, new(bn.G1).ScalarMult(e, rho[from+i]))
		}
		return sum
	}
	sum2 := func(es []*bn.G2, from int) *bn.G2 {
		sum := g2(new(big.Int))
		for i, e := range es {
			sum = new(bn.G2).Add(sum, new(bn.G2).ScalarMult(e, rho[from+i]))
		}
		return sum
	}
	L, R, E, O := func(q row) poly { return q.L }, func(q row) poly { return q.R }, func(q row) poly { return q.E }, func(q row) poly { return q.O }
	eq := func(what string, a, b []byte) {
		if !bytes.Equal(a, b) {
			r.Failf("%s in the key do not belong to the constraints (sparse: %v)\n%s", what, s.Sparse, sprintRows(c.rows))
		}
	}
	eq("L(x)+E(x)", sum1(pk.G1.Lx_plus_Ex, 0).Marshal(), at(pAdd(column(L, 0, c.n), column(E, 0, c.n))).Marshal())
	eq("E(x)", sum1(pk.G1.Ex, 0).Marshal(), at(column(E, 0, c.n)).Marshal())
	eq("R(x)", sum2(pk.G2.Rx, 0).Marshal(), at2(column(R, 0, c.n)).Marshal())
	mixed := func(what string, from, to int, es []*bn.G1, by *bn.G2) {
		want := new(bn.GT).Add(bn.Pair(pk.G1.Alpha, sum2(pk.G2.Rx[from:to], from)), bn.Pair(sum1(pk.G1.Lx_plus_Ex[from:to], from), pk.G2.Beta))
		want = new(bn.GT).Add(want, bn.Pair(at(column(O, from, to)), h))
		eq(what, pair(sum1(es, from), by), want.Marshal())
	}
	mixed("the public wires", 0, c.publics, pk.G1.RLEO_Gamma, pk.G2.Gamma)
	mixed("the private wires", c.publics, c.n, pk.G1.RLEO_Delta, pk.G2.Delta)
	// the secrets are independent of each other and of those of another setup
	seen := map[string]string{}
	for i, q := range []*prover{p, newProver(c, s.Sparse)} {
		k := &q.setup.Pk
		secrets := map[string]*bn.GT{"alpha": bn.Pair(k.G1.Alpha, h), "beta": bn.Pair(k.G1.Beta, h), "gamma": bn.Pair(g, k.G2.Gamma), "delta": bn.Pair(k.G1.Delta, h), "the domain polynomial at x": bn.Pair(k.G1.PowersX_Domain_Delta[0], k.G2.Delta)}
		if n > 1 {
			secrets["x"] = bn.Pair(k.G1.PowersX[1], h)
		}
		for small := int64(-3); small <= 3; small++ {
			seen[string(bn.Pair(g1(modN(big.NewInt(small))), h).Marshal())] = fmt.Sprint(small)
		}
		for _, name := range []string{"alpha", "beta", "gamma", "delta", "x", "the domain polynomial at x"} {
			if v, ok := secrets[name]; ok && !(n == 1 && name == "the domain polynomial at x") {
				m := string(v.Marshal())
				if o, dup := seen[m]; dup {
					r.Failf("%s of setup %d is the same as %s", name, i+1, o)
				}
				seen[m] = fmt.Sprintf("%s of setup %d", name, i+1)
			}
		}
	}
	r.LabelIf(len(column(E, 0, c.n)) > 0, "extension")
	r.LabelIf(s.Randomize, "randomizer")
	r.LabelIf(s.Sparse, "sparse")
	r.LabelIf(c.publics > 1, "public inputs")
	r.NonTrivialIf(n > 1)
}

func init() {
	register("S05", mk("keys", "more than one constraint", 120, 2500, genSetup, runSetup),
		mk("processes", "a setup in each of two processes", 6, 80, genSecret, runSecretProcs),
		mk("randomness", "a setup was made", 40, 600, genSecret, runEntropy))
	register("S01", mk("valid proofs", "more than one constraint and a satisfying assignment", 160, 3000, genSnark(0), runComplete),
		mk("written systems", "more than one constraint and a satisfying assignment", 40, 1000, genSysSnark(0), runComplete),
		mk("extension", "proven", 60, 1500, genExtProof, runExtProof))
	register("S02", mk("public signals", "a change of the signals that matters to some constraint", 160, 3000, genSnark(6), runBound),
		mk("written systems", "a change of the signals that matters to some constraint", 40, 1000, genSysSnark(6), runBound))
	register("S03", mk("altered proofs", "an element of the proof really changed", 160, 3000, genSnark(8), runTamper),
		mk("written systems", "an element of the proof really changed", 40, 1000, genSysSnark(8), runTamper))
	register("S04", mk("violated constraints", "a constraint is violated", 400, 3000, genSnark(5), runUnsat),
		mk("written systems", "a constraint is violated", 50, 500, genSysSnark(5), runUnsat),
		mk("dishonest prover", "a constraint is violated", 100, 1000, genSnark(4), runForge))
}
