package main

// C15: systems with the randomising constraint.

import (
	"fmt"
	"math/big"

	"pgregory.net/rapid"
)

type rsysCase struct {
	P   progCase
	Bad []string // inputs which may violate something
	N   int      // witnesses of the same inputs
}

func genRsys(pr profile) func(t *rapid.T) rsysCase {
	return func(t *rapid.T) rsysCase {
		p := pr
		p.bits = rapid.IntRange(0, 100).Draw(t, "bits") == 7
		pc, _ := genProg(t, p, 1)
		c := rsysCase{P: pc, N: rapid.IntRange(2, 3).Draw(t, "n"), Bad: append([]string{}, pc.Trials[0].In...)}
		i := rapid.IntRange(0, len(c.Bad)-1).Draw(t, "which")
		c.Bad[i] = genField(t, "perturbed").String()
		return c
	}
}

func sameRow(a, b row) bool { return pEq(a.L, b.L) && pEq(a.R, b.R) && pEq(a.E, b.E) && pEq(a.O, b.O) }

func runRsys(c *rsysCase, r *R) {
	if c.P.Trials[0].Err {
		return
	}
	plain := compileSrc(c.P.Src)
	cp := compileSrcR(c.P.Src, true)
	n := len(plain.rows)
	if !sameNames(cp.inputs, plain.inputs) || !sameNames(cp.prog.PublicInputs, plain.prog.PublicInputs) || cp.publics != plain.publics {
		r.Failf("inputs %v, public %v (%d); without randomisation %v, %v (%d)", cp.inputs, cp.prog.PublicInputs, cp.publics, plain.inputs, plain.prog.PublicInputs, plain.publics)
	}
	if len(cp.rows) != n+1 || len(cp.srows) != n+1 || cp.dense.NumberOfGates != n+1 || cp.sparse.NumberOfGates != n+1 {
		r.Failf("%d dense, %d sparse constraints, %d without randomisation", len(cp.rows), len(cp.srows), n)
	}
	if cp.n != plain.n+2 || cp.sparse.WitnessLength != cp.n {
		r.Failf("%d, %d wires, %d without randomisation", cp.n, cp.sparse.WitnessLength, plain.n)
	}
	for i := range plain.rows {
		if !sameRow(plain.rows[i], cp.rows[i]) || !sameRow(plain.srows[i], cp.srows[i]) {
			r.Failf("constraint %d is %v (dense), %v (sparse), without randomisation %v", i, cp.rows[i], cp.srows[i], plain.rows[i])
		}
	}
	// r*r + X(g^r) = s
	ri, si := plain.n, plain.n+1
	x := poly{uint64(ri): big.NewInt(1)}
	want := row{x, x, x, poly{uint64(si): big.NewInt(1)}}
	if !sameRow(cp.rows[n], want) || !sameRow(cp.srows[n], want) {
		r.Failf("the randomising constraint is %v (dense), %v (sparse), want %v", cp.rows[n], cp.srows[n], want)
	}
	in := bigs(c.P.Trials[0].In)
	w0 := checkSat(r, plain, in, "without randomisation")
	seen := map[string]bool{}
	for k := 0; k < c.N; k++ {
		for _, dense := range []bool{true, false} {
			var w []*big.Int
			var err error
			rows := cp.rows
			if dense {
				w, err = cp.witDense(in)
			} else {
				w, err = cp.witSparse(in)
				rows = cp.srows
			}
			what := fmt.Sprintf("witness %d (dense: %v)", k, dense)
			if err != nil {
				r.Failf("%s: %v", what, err)
			}
			if len(w) != cp.n {
				r.Failf("%s has %d wires, want %d", what, len(w), cp.n)
			}
			if i := firstViolated(rows, w); i >= 0 {
				r.Failf("%s violates constraint %d %v: %v", what, i, rows[i], w)
			}
			if !eqMod(w0, w[:plain.n]) {
				r.Failf("%s is %v, without randomisation %v", what, w, w0)
			}
			v := modN(w[ri]).String()
			if seen[v] || modN(w[ri]).BitLen() < 64 {
				r.Failf("%s draws %v, which is no fresh random element", what, w[ri])
			}
			seen[v] = true
		}
	}
	bad := bigs(c.Bad)
	_, e1 := plain.witDense(bad)
	_, e2 := cp.witDense(bad)
	_, e3 := cp.witSparse(bad)
	if (e1 == nil) != (e2 == nil) || (e1 == nil) != (e3 == nil) {
		r.Failf("inputs %v: without randomisation %v, with it %v (dense), %v (sparse)", bad, e1, e2, e3)
	}
	r.LabelIf(e1 != nil, "refused inputs")
	// a system without randomisation, compiled afterwards, has none
	again := compileSrc(c.P.Src)
	if snapshot(again) != snapshot(plain) {
		r.Failf("the system without randomisation changed")
	}
	r.NonTrivialIf(n > 1)
}

func init() {
	pr := profile{depth: 2, stmts: 6, div: true, funcs: true, ctrl: true, arrays: true, equals: true, outs: 2}
	prE := pr
	prE.ext = true
	register("C15",
		mk("randomised systems", "more than one constraint besides the randomising one", 1200, 20000, genRsys(pr), runRsys),
		mk("extension", "more than one constraint besides the randomising one", 200, 4000, genRsys(prE), runRsys))
}
