package main

// Constraint systems written by hand: the rows of a compiled shell program are replaced by arbitrary ones. C17, and a
// second source of systems for D01 and S01-S04.

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"pgregory.net/rapid"
)

type sysTerm struct {
	Wire int
	Coef string
}
type sysRow struct{ L, R, E, O []sysTerm }

// system replaces the constraints of a program whose inputs are wires 1..k.
type system struct {
	N    int // wires
	Rows []sysRow
}

func termsPoly(ts []sysTerm) poly {
	p := poly{}
	for _, t := range ts {
		p[uint64(t.Wire)] = bi(t.Coef)
	}
	return p
}

func (s sysRow) row() row {
	return row{termsPoly(s.L), termsPoly(s.R), termsPoly(s.E), termsPoly(s.O)}
}

// compileCase compiles the program of a case; a case with a system of its own gets that.
func compileCase(pc *progCase) *compiled { return compileCaseR(pc, false) }

func compileCaseR(pc *progCase, randomize bool) *compiled {
	c := compileSrcR(pc.Src, randomize)
	if pc.Sys == nil {
		return c
	}
	n := pc.Sys.N
	if c.n != n {
		panic(fmt.Sprintf("harness: the shell has %d wires instead of %d", c.n, n))
	}
	c.n, c.rows, c.srows = n, nil, nil
	d, s := c.dense, c.sparse
	d.WitnessLength, s.WitnessLength = n, n
	d.NumberOfGates, s.NumberOfGates = len(pc.Sys.Rows), len(pc.Sys.Rows)
	d.L, d.R, d.E, d.O = nil, nil, nil, nil
	s.L, s.R, s.E, s.O = nil, nil, nil, nil
	dense := func(ts []sysTerm) []*big.Int {
		v := make([]*big.Int, n)
		for i := range v {
			v[i] = new(big.Int)
		}
		for _, t := range ts {
			v[t.Wire] = bi(t.Coef)
		}
		return v
	}
	sparse := func(ts []sysTerm) *utils.AvlTree {
		v := utils.NewAvlTree()
		for _, t := range ts {
			v.Insert(uint(t.Wire), bi(t.Coef))
		}
		return v
	}
	for _, x := range pc.Sys.Rows {
		d.L, d.R, d.E, d.O = append(d.L, dense(x.L)), append(d.R, dense(x.R)), append(d.E, dense(x.E)), append(d.O, dense(x.O))
		s.L, s.R, s.E, s.O = append(s.L, sparse(x.L)), append(s.R, sparse(x.R)), append(s.E, sparse(x.E)), append(s.O, sparse(x.O))
		c.rows, c.srows = append(c.rows, x.row()), append(c.srows, x.row())
	}
	return c
}

// solveRow finds the one wire of a row that is not known, or checks the row.
func solveRow(x row, w []*big.Int) (wire int, ok bool) {
	unknown := func(p poly) (u []int) {
		for k := range p {
			if w[k] == nil {
				u = append(u, int(k))
			}
		}
		return
	}
	sum := func(p poly) *big.Int {
		v := new(big.Int)
		for k, c := range p {
			if w[k] != nil {
				v = fAdd(v, fMul(c, w[k]))
			}
		}
		return v
	}
	ul, ur, uo := unknown(x.L), unknown(x.R), unknown(x.O)
	if len(unknown(x.E)) > 0 || len(ul)+len(ur)+len(uo) > 1 {
		return 0, false
	}
	l, r, o, g := sum(x.L), sum(x.R), sum(x.O), refScalarBaseX(sum(x.E))
	side := func(known, other *big.Int, p poly, u int) (int, bool) {
		if other.Sign() == 0 {
			return 0, false
		}
		q := fMul(fSub(o, g), new(big.Int).ModInverse(other, refN))
		w[u] = fMul(fSub(q, known), new(big.Int).ModInverse(p[uint64(u)], refN))
		return u, true
	}
	switch {
	case len(ul) == 1:
		return side(l, r, x.L, ul[0])
	case len(ur) == 1:
		return side(r, l, x.R, ur[0])
	case len(uo) == 1:
		w[uo[0]] = fMul(fSub(fAdd(fMul(l, r), g), o), new(big.Int).ModInverse(x.O[uint64(uo[0])], refN))
		return uo[0], true
	}
	return 0, fAdd(fMul(l, r), g).Cmp(o) == 0
}

// solve is the reference for witness generation; nil if the system cannot be solved row by row.
func (s *system) solve(in []*big.Int) []*big.Int {
	w := make([]*big.Int, s.N)
	w[0] = big.NewInt(1)
	for i, v := range in {
		w[i+1] = modN(v)
	}
	for _, x := range s.Rows {
		if _, ok := solveRow(x.row(), w); !ok {
			return nil
		}
	}
	return w
}

type sysProfile struct {
	rows, inputs int
	ext          bool // exponents
	bad          bool // rows that cannot be solved
}

// genSystem draws a system whose rows, in order, determine one wire each or none.
func genSystem(t *rapid.T, pr sysProfile, trials int) progCase {
	k := rapid.IntRange(1, pr.inputs).Draw(t, "inputs")
	params, pub := "", ""
	np := rapid.IntRange(0, k).Draw(t, "publics")
	pc := progCase{}
	for i := 1; i <= k; i++ {
		params += fmt.Sprintf(", x%d", i)[2*b2i(i == 1):]
		if i <= np {
			pub += fmt.Sprintf(", x%d", i)[2*b2i(i == 1):]
			pc.Pub = append(pc.Pub, fmt.Sprintf("x%d", i))
		}
		pc.Inputs = append(pc.Inputs, fmt.Sprintf("x%d", i))
	}
	if np > 0 {
		pub = "public{" + pub + "}\n"
	}
	var ins [][]*big.Int
	for i := 0; i < trials; i++ {
		ins = append(ins, nil)
		for j := 0; j < k; j++ {
			v := genField(t, "in")
			if rapid.IntRange(0, 3).Draw(t, "unreduced") == 0 {
				v = genInt(t, refN, "in")
			}
			ins[i] = append(ins[i], v)
		}
	}
	s := &system{N: 1 + k}
	w := make([]*big.Int, 1, 64) // the trace of the first trial
	w[0] = big.NewInt(1)
	for _, v := range ins[0] {
		w = append(w, modN(v))
	}
	terms := func(label string, lo, hi int) (ts []sysTerm) {
		used := map[int]bool{}
		for n := rapid.IntRange(lo, hi).Draw(t, label); n > 0; n-- {
			x := rapid.IntRange(0, s.N-1).Draw(t, label+"w")
			if !used[x] {
				used[x] = true
				ts = append(ts, sysTerm{x, genNZ(t, label+"c").String()})
			}
		}
		return
	}
	known := func(ts []sysTerm) *big.Int { return pDot(termsPoly(ts), w) }
	free := func() int { return s.N }
	for n := rapid.IntRange(1, upTo(t, pr.rows, 4*pr.rows)).Draw(t, "rows"); n > 0; n-- {
		x := sysRow{L: terms("L", 0, 3), R: terms("R", 0, 3), O: terms("O", 0, 3)}
		if pr.ext && rapid.IntRange(0, 2).Draw(t, "exp") == 0 {
			x.E = terms("E", 1, 2)
		}
		u := sysTerm{free(), genNZ(t, "u").String()}
		put := func(ts []sysTerm) []sysTerm {
			i := rapid.IntRange(0, len(ts)).Draw(t, "at")
			return append(ts[:i:i], append([]sysTerm{u}, ts[i:]...)...)
		}
		kind := rapid.IntRange(0, 19).Draw(t, "kind")
		if kind >= 18 && !pr.bad {
			kind -= 10
		}
		if (kind == 7 || kind == 9) && known(x.R).Sign() == 0 || (kind == 8 || kind == 10) && known(x.L).Sign() == 0 {
			kind = 0
		}
		switch {
		case kind < 7 || kind == 15:
			x.O = put(x.O)
		case kind == 7 || kind == 9:
			x.L = put(x.L)
		case kind == 8 || kind == 10:
			x.R = put(x.R)
		case kind < 13: // a check that holds in the first trial: the constant makes up for the rest
			lhs := fAdd(fMul(known(x.L), known(x.R)), refScalarBaseX(known(x.E)))
			var o []sysTerm
			for _, y := range x.O {
				if y.Wire != 0 {
					o = append(o, y)
				}
			}
			x.O = o
			if d := fSub(lhs, known(o)); d.Sign() != 0 {
				x.O = append([]sysTerm{{0, d.String()}}, o...)
			}
			if pr.bad && kind == 12 && rapid.Bool().Draw(t, "wrong") {
				x.O = append(x.O, sysTerm{0, "1"})
				if len(x.O) > 1 && x.O[0].Wire == 0 {
					x.O = x.O[:len(x.O)-1]
					x.O[0].Coef = fAdd(bi(x.O[0].Coef), genNZ(t, "off")).String()
					if x.O[0].Coef == "0" {
						x.O = x.O[1:]
					}
				}
			}
		case kind < 15 && len(s.Rows) > 0: // an earlier row, scaled
			y := s.Rows[rapid.IntRange(0, len(s.Rows)-1).Draw(t, "earlier")]
			if len(y.E) > 0 {
				x = y
				break
			}
			f := genNZ(t, "f")
			scale := func(ts []sysTerm) (o []sysTerm) {
				for _, z := range ts {
					o = append(o, sysTerm{z.Wire, fMul(bi(z.Coef), f).String()})
				}
				return
			}
			x = sysRow{L: scale(y.L), R: append([]sysTerm{}, y.R...), O: scale(y.O)}
		case kind == 18: // two unknowns
			v := sysTerm{free() + rapid.IntRange(0, 1).Draw(t, "second"), "5"}
			switch rapid.IntRange(0, 2).Draw(t, "where") {
			case 0:
				x.L, x.R = put(x.L), append(x.R, v)
			case 1:
				x.L, x.O = put(x.L), append(x.O, v)
			case 2:
				x.R, x.O = put(x.R), append(x.O, v)
			}
			if s.N < v.Wire {
				s.N = v.Wire
			}
		case kind == 19 && pr.ext: // an exponent nobody knows, or a factor times zero
			if rapid.Bool().Draw(t, "exponent") {
				x.E = put(x.E)
			} else {
				x.L, x.R = put(x.L), nil
			}
		default:
			x.O = put(x.O)
		}
		s.Rows = append(s.Rows, x)
		for _, ts := range [][]sysTerm{x.L, x.R, x.E, x.O} {
			for _, y := range ts {
				if y.Wire >= s.N {
					s.N = y.Wire + 1
				}
			}
		}
		for len(w) < s.N {
			w = append(w, nil)
		}
		if _, ok := solveRow(x.row(), w); !ok {
			break
		}
	}
	pc.Sys = s
	body, y := "", "x1" // a program with as many wires
	for i := 1; i < s.N-k; i++ {
		body += fmt.Sprintf("var y%d = %s*%s\n", i, y, y)
		y = fmt.Sprintf("y%d", i)
	}
	if s.N == 1+k {
		body += "equal(x1, 5)\n"
	} else {
		y = " " + y
	}
	pc.Src = fmt.Sprintf("func main(%s){\n%s%sreturn%s\n}\n", params, pub, body, strings.TrimSuffix(y, "x1"))
	for i := range ins {
		tr := trial{Err: s.solve(ins[i]) == nil}
		for _, v := range ins[i] {
			tr.In = append(tr.In, v.String())
		}
		pc.Trials = append(pc.Trials, tr)
	}
	return pc
}

func runSystem(pc *progCase, r *R) {
	c := compileCase(pc)
	before := fmt.Sprint(c.dense.L, c.dense.R, c.dense.E, c.dense.O)
	first := pc.Trials[0]
	for i, tr := range append(pc.Trials, first) {
		in := bigs(tr.In)
		want := pc.Sys.solve(in)
		for _, dense := range []bool{true, false} {
			what := fmt.Sprintf("trial %d (dense: %v)", i, dense)
			f := c.witSparse
			if dense {
				f = c.witDense
			}
			w, err := f(in)
			if want == nil {
				r.Label("cannot be solved")
				if err == nil {
					r.Failf("%s: the rows cannot be solved, but the result is %v", what, w)
				}
				continue
			}
			if err != nil {
				r.Failf("%s: %v, want %v", what, err, want)
			}
			if !eqMod(w, want) {
				r.Failf("%s: %v, want %v", what, w, want)
			}
			r.NonTrivialIf(len(c.rows) > 2)
		}
		if fmt.Sprint(in) != fmt.Sprint(bigs(tr.In)) {
			r.Failf("trial %d: the inputs were changed", i)
		}
	}
	if fmt.Sprint(c.dense.L, c.dense.R, c.dense.E, c.dense.O) != before {
		r.Failf("the system was changed")
	}
	for i, x := range c.rows {
		y := row{treeToPoly(c.sparse.L[i]), treeToPoly(c.sparse.R[i]), treeToPoly(c.sparse.E[i]), treeToPoly(c.sparse.O[i])}
		if !pEq(x.L, y.L) || !pEq(x.R, y.R) || !pEq(x.E, y.E) || !pEq(x.O, y.O) {
			r.Failf("row %d of the sparse system was changed", i)
		}
		r.LabelIf(len(x.E) > 0, "exponents")
	}
}

// genSysSnark draws a hand-made system to be proven.
func genSysSnark(tampers int) func(t *rapid.T) snarkCase {
	return func(t *rapid.T) snarkCase {
		return snarkFor(t, genSystem(t, sysProfile{rows: 12, inputs: 4}, 2), tampers)
	}
}

func genSysEap(ext bool) func(t *rapid.T) eapCase {
	return func(t *rapid.T) eapCase {
		pc := genSystem(t, sysProfile{rows: 10, inputs: 4, ext: ext}, 2)
		c := eapCase{P: pc, At: genField(t, "at").String()}
		c.T.Wires = []int{rapid.IntRange(0, 300).Draw(t, "wire")}
		c.T.Deltas = []string{genNZ(t, "delta").String()}
		if !pc.Trials[1].Err {
			c.Second = pc.Trials[1].In
		}
		return c
	}
}

func init() {
	rule := "more than two rows and a solution"
	register("C17",
		mk("classic", rule, 16000, 160000, func(t *rapid.T) progCase { return genSystem(t, sysProfile{rows: 14, inputs: 5, bad: true}, 2) }, runSystem),
		mk("extension", rule, 1500, 20000, func(t *rapid.T) progCase {
			return genSystem(t, sysProfile{rows: 8, inputs: 4, ext: true, bad: true}, 2)
		}, runSystem))
}
