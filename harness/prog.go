package main

// Running programs through the compiler, and checking assignments against the constraints it produced.

import (
	"fmt"
	"math/big"
	"os"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
)

// row is one constraint: (L·w)(R·w) + X(g^(E·w)) = O·w over the scalar field.
type row struct{ L, R, E, O poly }

type compiled struct {
	prog    *cc.Program
	inputs  []string // main's flattened argument names
	publics int      // including the one-signal
	dense   *cc.ER1CS
	sparse  *cc.ER1CSSparse
	rows    []row // from the dense form
	srows   []row // from the sparse form
	n       int   // witness length
}

func compileSrc(src string) *compiled { return compileSrcR(src, false) }

func compileSrcR(src string, randomize bool) *compiled {
	c := &compiled{}
	c.prog = cc.Parse(src, true)
	c.inputs = append([]string{}, c.prog.GetMainCircuit().Inputs...)
	gates := c.prog.Execute()
	c.publics = c.prog.GlobalInputCount()
	c.dense = c.prog.GatesToR1CS(gates, randomize)
	c.sparse = c.prog.GatesToSparseR1CS(gates, randomize)
	c.n = c.dense.WitnessLength
	for i := range c.dense.L {
		c.rows = append(c.rows, row{denseToPoly(c.dense.L[i]), denseToPoly(c.dense.R[i]), denseToPoly(c.dense.E[i]), denseToPoly(c.dense.O[i])})
	}
	for i := range c.sparse.L {
		c.srows = append(c.srows, row{treeToPoly(c.sparse.L[i]), treeToPoly(c.sparse.R[i]), treeToPoly(c.sparse.E[i]), treeToPoly(c.sparse.O[i])})
	}
	return c
}

func (c *compiled) args(vals []*big.Int) []cc.InputArgument {
	v := make([]*big.Int, len(vals))
	for i := range vals {
		v[i] = new(big.Int).Set(vals[i])
	}
	return cc.CombineInputs(c.inputs, v)
}
func (c *compiled) witDense(vals []*big.Int) ([]*big.Int, error) {
	return cc.CalculateWitness(c.dense, c.args(vals))
}
func (c *compiled) witSparse(vals []*big.Int) ([]*big.Int, error) {
	return cc.CalculateSparseWitness(c.sparse, c.args(vals))
}

func pDot(p poly, w []*big.Int) *big.Int {
	r := new(big.Int)
	for k, v := range p {
		r = fAdd(r, fMul(v, w[k]))
	}
	return r
}

func (r row) holds(w []*big.Int) bool {
	lhs := fMul(pDot(r.L, w), pDot(r.R, w))
	if len(r.E) > 0 {
		lhs = fAdd(lhs, refScalarBaseX(pDot(r.E, w)))
	}
	return lhs.Cmp(pDot(r.O, w)) == 0
}

func firstViolated(rows []row, w []*big.Int) int {
	for i, r := range rows {
		if !r.holds(w) {
			return i
		}
	}
	return -1
}

// quietly runs f with the process's stdout on /dev/null already set by the worker; kept for readability.
func init() { _ = os.Stdout }

// checkSat: the inputs are accepted by both witness generators, and the witness satisfies every constraint.
func checkSat(r *R, c *compiled, vals []*big.Int, what string) []*big.Int {
	w, err := c.witDense(vals)
	if err != nil {
		r.Failf("%s: dense witness generation rejects a valid assignment: %v", what, err)
	}
	ws, err := c.witSparse(vals)
	if err != nil {
		r.Failf("%s: sparse witness generation rejects a valid assignment: %v", what, err)
	}
	if len(w) != len(ws) {
		r.Failf("%s: dense and sparse witness lengths differ: %d, %d", what, len(w), len(ws))
	}
	for i := range w {
		if modN(w[i]).Cmp(modN(ws[i])) != 0 {
			r.Failf("%s: dense and sparse witness differ at %d: %v, %v", what, i, w[i], ws[i])
		}
	}
	if i := firstViolated(c.rows, w); i >= 0 {
		r.Failf("%s: the generated witness violates constraint %d %v", what, i, c.rows[i])
	}
	if i := firstViolated(c.srows, ws); i >= 0 {
		r.Failf("%s: the generated witness violates sparse constraint %d %v", what, i, c.srows[i])
	}
	return w
}

// checkUnsat: both witness generators refuse the inputs.
func checkUnsat(r *R, c *compiled, vals []*big.Int, what string) {
	if w, err := c.witDense(vals); err == nil {
		r.Failf("%s: dense witness generation accepts an invalid assignment %v -> %v", what, vals, w)
	}
	if w, err := c.witSparse(vals); err == nil {
		r.Failf("%s: sparse witness generation accepts an invalid assignment %v -> %v", what, vals, w)
	}
}

func sprintRows(rows []row) string {
	s := ""
	for i, r := range rows {
		s += fmt.Sprintf("%d: (%v)*(%v) + X(g^%v) = %v\n", i, r.L, r.R, r.E, r.O)
	}
	return s
}

// solveRows derives wires from the constraints alone, starting from the known ones: a row with a single unknown wire
// in one place determines it. conflict is a row that no assignment of the unknown wires satisfies, or -1; free counts
// the wires that stay undetermined.
func solveRows(rows []row, n int, known map[int]*big.Int) (w []*big.Int, conflict int, free int) {
	w = make([]*big.Int, n)
	w[0] = big.NewInt(1)
	for k, v := range known {
		w[k] = modN(v)
	}
	done := make([]bool, len(rows))
	splits := splitRows(rows)
	side := func(p poly) (sum, coef *big.Int, wire, unknowns int) {
		sum = new(big.Int)
		for k, v := range p {
			if w[k] != nil {
				sum = fAdd(sum, fMul(v, w[k]))
			} else {
				unknowns++
				wire, coef = int(k), v
			}
		}
		return
	}
	for progress := true; progress; {
		progress = false
		for i, r := range rows {
			if done[i] {
				continue
			}
			if sp, ok := splits[i]; ok && w[sp.x] != nil {
				// the decomposition into bits
				x := sp.x
				for j, b := range sp.bits {
					if w[b] == nil {
						w[b] = big.NewInt(int64(w[x].Bit(j)))
						progress = true
					}
				}
			}
			ls, lc, lw, lu := side(r.L)
			rs, rc, rw, ru := side(r.R)
			es, _, _, eu := side(r.E)
			os, oc, ow, ou := side(r.O)
			if eu > 0 {
				continue
			}
			g := new(big.Int)
			if len(r.E) > 0 {
				g = refScalarBaseX(es)
			}
			set := func(k int, v *big.Int) { w[k] = v; done[i] = true; progress = true }
			// a factor known to be zero makes the product zero, whatever the other one is
			if lu == 0 && ls.Sign() == 0 {
				ru = 0
			} else if ru == 0 && rs.Sign() == 0 {
				lu = 0
			}
			switch {
			case lu+ru+ou == 0:
				if fAdd(fMul(ls, rs), g).Cmp(os) != 0 {
					return w, i, countFree(w)
				}
				done[i] = true
				progress = true
			case lu+ru == 0 && ou == 1:
				set(ow, fDiv(fSub(fAdd(fMul(ls, rs), g), os), oc))
			case lu == 1 && ru+ou == 0:
				set(lw, fDiv(fSub(fDiv(fSub(os, g), rs), ls), lc))
			case ru == 1 && lu+ou == 0:
				set(rw, fDiv(fSub(fDiv(fSub(os, g), ls), rs), rc))
			}
		}
	}
	return w, -1, countFree(w)
}

// split is a row sum 2^i*b_i = x with all b_i asserted to be 0 or 1 by rows (b_i-1)*b_i = 0.
type split struct {
	bits []int
	x    int
}

func splitRows(rows []row) map[int]split {
	out := map[int]split{}
	one := big.NewInt(1)
	isConst := func(p poly) bool { return len(p) == 0 || len(p) == 1 && p[0] != nil }
	// rows about one wire that hold exactly for 0 and 1
	bools := map[uint64]bool{}
	for _, r := range rows {
		wire, single := uint64(0), len(r.E) == 0
		for _, p := range []poly{r.L, r.R, r.O} {
			for k := range p {
				if k != 0 {
					single = single && (wire == 0 || wire == k)
					wire = k
				}
			}
		}
		if !single || wire == 0 || isConst(r.L) || isConst(r.R) {
			continue
		}
		at := func(v int64) bool {
			ev := func(p poly) *big.Int {
				x := new(big.Int)
				for k, c := range p {
					if k == 0 {
						x = fAdd(x, c)
					} else {
						x = fAdd(x, fMul(c, big.NewInt(v)))
					}
				}
				return x
			}
			return fMul(ev(r.L), ev(r.R)).Cmp(ev(r.O)) == 0
		}
		if at(0) && at(1) {
			bools[wire] = true
		}
	}
	for i, r := range rows {
		// a linear row: constant times form equals form
		lin, by := r.L, r.R
		if isConst(lin) {
			lin, by = by, lin
		}
		if !isConst(by) || len(by) == 0 || len(r.E) != 0 || len(lin)+len(r.O) < refN.BitLen() {
			continue
		}
		form := pSub(pScale(lin, by[0]), r.O)
		var x uint64
		n := 0
		for k := range form {
			if !bools[k] {
				x = k
				n++
			}
		}
		if n != 1 || x == 0 || len(form) != refN.BitLen()+1 {
			continue
		}
		scale := fInv(fSub(new(big.Int), form[x]))
		s := split{bits: make([]int, refN.BitLen()), x: int(x)}
		ok := true
		for k, v := range form {
			if k == x {
				continue
			}
			c := fMul(v, scale)
			e := c.BitLen() - 1
			if e < 0 || e >= len(s.bits) || new(big.Int).Lsh(one, uint(e)).Cmp(c) != 0 || s.bits[e] != 0 {
				ok = false
				break
			}
			s.bits[e] = int(k)
		}
		if ok {
			out[i] = s
		}
	}
	return out
}

func countFree(w []*big.Int) (n int) {
	for _, x := range w {
		if x == nil {
			n++
		}
	}
	return
}

// wires gives the position of every input of main in the witness: the one-signal, the public inputs as declared, the
// others in the order of main's arguments.
func (c *compiled) wires() map[string]int {
	m := map[string]int{}
	k := 0
	for _, n := range c.prog.PublicInputs {
		m[n] = k
		k++
	}
	for _, n := range c.inputs {
		if _, ok := m[n]; !ok {
			m[n] = k
			k++
		}
	}
	return m
}
func (c *compiled) known(vals []*big.Int) map[int]*big.Int {
	m := map[int]*big.Int{}
	pos := c.wires()
	for i, n := range c.inputs {
		m[pos[n]] = vals[i]
	}
	return m
}
