package main

// C16: named inputs.

import (
	"fmt"
	"math/big"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"pgregory.net/rapid"
)

type namedInputs struct {
	Names, Vals []string
	Complete    bool // every input of the program is named
	Bad         bool // an unknown name, or two values for one name
}
type namedCase struct {
	P     progCase
	Lists []namedInputs
	Early bool // the lists are built before the first is used, and used twice
	Short int  // number of values handed to CombineInputs with the names of the program
}

func genNamed(pr profile) func(t *rapid.T) namedCase {
	return func(t *rapid.T) namedCase {
		p := pr
		p.bits = rapid.IntRange(0, 150).Draw(t, "bits") == 7
		p.outs = rapid.IntRange(1, 3).Draw(t, "outs")
		pc, _ := genProg(t, p, 1)
		c := namedCase{P: pc, Early: rapid.Bool().Draw(t, "early")}
		n := len(pc.Inputs)
		c.Short = rapid.IntRange(0, n).Draw(t, "short")
		if c.Short == n {
			c.Short += rapid.IntRange(1, 3).Draw(t, "more")
		}
		known := map[string]bool{"1": true}
		for _, s := range pc.Inputs {
			known[s] = true
		}
		for k := rapid.IntRange(3, 6).Draw(t, "lists"); k > 0; k-- {
			l := namedInputs{Complete: true, Names: append([]string{}, pc.Inputs...), Vals: append([]string{}, pc.Trials[0].In...)}
			for m := rapid.IntRange(1, 4).Draw(t, "changes"); m > 0; m-- {
				i := 0
				if len(l.Names) > 0 {
					i = rapid.IntRange(0, len(l.Names)-1).Draw(t, "which")
				}
				insert := func(name, val string) {
					j := rapid.IntRange(0, len(l.Names)).Draw(t, "at")
					l.Names = append(l.Names[:j:j], append([]string{name}, l.Names[j:]...)...)
					l.Vals = append(l.Vals[:j:j], append([]string{val}, l.Vals[j:]...)...)
				}
				switch op := rapid.IntRange(0, 9).Draw(t, "change"); {
				case op < 4: // another order
					for range l.Names {
						a, b := rapid.IntRange(0, len(l.Names)-1).Draw(t, "a"), rapid.IntRange(0, len(l.Names)-1).Draw(t, "b")
						l.Names[a], l.Names[b] = l.Names[b], l.Names[a]
						l.Vals[a], l.Vals[b] = l.Vals[b], l.Vals[a]
					}
				case op == 4 && len(l.Names) > 0: // the same again
					insert(l.Names[i], new(big.Int).Add(bi(l.Vals[i]), new(big.Int).Mul(refN, big.NewInt(int64(rapid.IntRange(-1, 2).Draw(t, "shift"))))).String())
				case op == 5: // the one
					v := big.NewInt(1)
					if rapid.Bool().Draw(t, "otherone") {
						v = genField(t, "one")
						l.Bad = l.Bad || v.Cmp(big.NewInt(1)) != 0
					}
					insert("1", v.String())
				case op < 8 && len(l.Names) > 0: // one is left out
					name := l.Names[i]
					l.Names = append(l.Names[:i:i], l.Names[i+1:]...)
					l.Vals = append(l.Vals[:i:i], l.Vals[i+1:]...)
					found := name == "1"
					for _, x := range l.Names {
						found = found || x == name
					}
					l.Complete = l.Complete && found
				case op == 8: // a name the program does not have
					name := []string{"", "0", "notThere", "input", "1@", "x[0]", "zz"}[rapid.IntRange(0, 6).Draw(t, "name")]
					if len(l.Names) > 0 && rapid.Bool().Draw(t, "similar") {
						name = l.Names[i] + []string{"_", "0", "[0]", " ", "x"}[rapid.IntRange(0, 4).Draw(t, "suffix")]
					}
					if !known[name] {
						insert(name, genField(t, "unknown").String())
						l.Bad = true
					}
				case op == 9 && len(l.Names) > 0 && l.Names[i] != "1": // contradiction
					v := genField(t, "other")
					insert(l.Names[i], v.String())
					l.Bad = l.Bad || v.Cmp(modN(bi(l.Vals[i]))) != 0
				}
			}
			// whatever was inserted and removed: the list decides
			l.Bad = false
			vals := map[string]*big.Int{"1": big.NewInt(1)}
			for j, x := range l.Names {
				v := modN(bi(l.Vals[j]))
				if o := vals[x]; o != nil && o.Cmp(v) != 0 || !known[x] {
					l.Bad = true
				}
				vals[x] = v
			}
			l.Complete = true
			for j, x := range pc.Inputs {
				if vals[x] == nil {
					l.Complete = false
				} else if vals[x].Cmp(modN(bi(pc.Trials[0].In[j]))) != 0 {
					l.Complete = false // other inputs
				}
			}
			c.Lists = append(c.Lists, l)
		}
		return c
	}
}

func runNamed(c *namedCase, r *R) {
	if c.P.Trials[0].Err {
		return
	}
	cp := compileSrc(c.P.Src)
	w0 := checkSat(r, cp, bigs(c.P.Trials[0].In), "inputs in order")
	func() {
		refused := false
		defer func() {
			if e := recover(); e != nil {
				refused = true
			}
			if !refused {
				r.Failf("%d values for %d inputs are not refused", c.Short, len(cp.inputs))
			}
		}()
		v := make([]*big.Int, c.Short)
		for i := range v {
			v[i] = big.NewInt(int64(i))
		}
		cc.CombineInputs(cp.inputs, v)
	}()
	index := map[string]int{"1": 0}
	pub := map[string]bool{}
	for _, p := range cp.prog.PublicInputs {
		if p != "1" {
			index[p] = len(index)
		}
		pub[p] = true
	}
	for _, n := range cp.inputs {
		if !pub[n] {
			index[n] = len(index)
		}
	}
	early := make([][]cc.InputArgument, len(c.Lists))
	if c.Early {
		for i, l := range c.Lists {
			early[i] = cc.CombineInputs(l.Names, bigs(l.Vals))
		}
	}
	for i, l := range c.Lists {
		for _, dense := range []bool{true, false} {
			args := early[i]
			if !c.Early {
				args = cc.CombineInputs(l.Names, bigs(l.Vals))
			}
			var w []*big.Int
			var err error
			rows := cp.rows
			if dense {
				w, err = cc.CalculateWitness(cp.dense, args)
			} else {
				w, err = cc.CalculateSparseWitness(cp.sparse, args)
				rows = cp.srows
			}
			what := fmt.Sprintf("named inputs %v = %v (dense: %v)", l.Names, l.Vals, dense)
			switch {
			case l.Bad:
				r.Label("unknown name or contradiction")
				if err == nil {
					r.Failf("%s contain a name the program does not have or contradict themselves, and are accepted: %v", what, w)
				}
				continue
			case l.Complete:
				r.Label("complete")
				if err != nil {
					r.Failf("%s: %v", what, err)
				}
				if !eqMod(w, w0) {
					r.Failf("%s: %v, in order %v", what, w, w0)
				}
				continue
			case err != nil:
				r.Label("incomplete, refused")
				continue
			}
			r.Label("incomplete, completed")
			if len(w) != cp.n || w[0].Cmp(big.NewInt(1)) != 0 {
				r.Failf("%s: witness %v", what, w)
			}
			if i := firstViolated(rows, w); i >= 0 {
				r.Failf("%s: witness %v violates constraint %d %v", what, w, i, rows[i])
			}
			for j, n := range l.Names {
				if modN(w[index[n]]).Cmp(modN(bi(l.Vals[j]))) != 0 {
					r.Failf("%s: witness %v has %v for %s", what, w, w[index[n]], n)
				}
			}
		}
	}
	r.NonTrivialIf(len(cp.inputs) > 1 && len(cp.rows) > 1 && (r.labels["complete"] || r.labels["incomplete, completed"]))
}

func init() {
	pr := profile{depth: 2, stmts: 4, div: true, funcs: true, ctrl: true, arrays: true, equals: true}
	prE := pr
	prE.ext = true
	rule := "more than one input and constraint, and a complete list in another order or one that is completed"
	register("C16",
		mk("named inputs", rule, 12000, 150000, genNamed(pr), runNamed),
		mk("extension", rule, 200, 4000, genNamed(prE), runNamed))
}
