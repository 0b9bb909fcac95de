package main

// Programs with many gates which differ in little: every one of them has to be kept (C10), and every assertion about
// them has to bind (C03).

import (
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

type manyCase struct {
	Kind []int
	K    []string // constants
	A, B string
	Bad  int // the output which is changed
}

// Constants whose gates get the same identifier if that is made of few digits of their hash (found by a birthday search).
var alikeEqual = [][2]int64{{116018870, 52355181}, {3555966, 132741665}, {29477310, 22871947}, {32810639, 114298614}, {57275574, 96903714}, {139489920, 40162911}, {105356933, 73285651}}
var alikeMul = [][2]int64{{132899525, 39205181}, {28658942, 100915485}, {83991028, 6138394}, {98848592, 37442538}, {74003873, 53020785}, {21655196, 8400146}, {127414583, 147384005}}

func genMany(maxN int) func(t *rapid.T) manyCase {
	return func(t *rapid.T) manyCase {
		c := manyCase{A: genNZ(t, "a").String(), B: genNZ(t, "b").String(), Bad: rapid.IntRange(0, 1<<20).Draw(t, "bad")}
		n := rapid.IntRange(1, 12).Draw(t, "n")
		if rapid.IntRange(0, 9).Draw(t, "big") == 7 {
			n = rapid.IntRange(12, maxN).Draw(t, "n")
		}
		base := genNZ(t, "base")
		for i := 0; i < n; i++ {
			k := genNZ(t, "k")
			switch rapid.IntRange(0, 4).Draw(t, "how") {
			case 0:
				k = new(big.Int).Add(base, big.NewInt(int64(i)))
			case 1:
				k = new(big.Int).Lsh(base, uint(rapid.IntRange(0, 8).Draw(t, "shift")))
			case 2:
				p := alikeEqual
				kind := 0
				if rapid.Bool().Draw(t, "muls") {
					p, kind = alikeMul, 1
				}
				x := p[rapid.IntRange(0, len(p)-1).Draw(t, "pair")]
				c.Kind = append(c.Kind, kind)
				c.K = append(c.K, fmt.Sprint(x[0]))
				k = big.NewInt(x[1])
				c.Kind = append(c.Kind, kind)
				c.K = append(c.K, k.String())
				continue
			}
			c.Kind = append(c.Kind, rapid.IntRange(0, 3).Draw(t, "kind"))
			if k = modN(k); k.Sign() == 0 {
				k = big.NewInt(1)
			}
			c.K = append(c.K, k.String())
		}
		return c
	}
}

// src renders the program. Without outputs the operations are only named and the assertions are about a; with outputs
// every operation is asserted to be an element of o.
func (c *manyCase) src(outs bool) string {
	var b strings.Builder
	if outs {
		fmt.Fprintf(&b, "func main(a,b,o[%d]){\n", len(c.K))
	} else {
		b.WriteString("func main(a,b){\n")
	}
	for i, k := range c.K {
		e := ""
		switch c.Kind[i] {
		case 0:
			if !outs {
				fmt.Fprintf(&b, "equal(a,%s)\n", k)
				continue
			}
			e = "a+" + k
		case 1:
			e = "a*(b+" + k + ")"
		case 2:
			e = "addGateConstraint(a," + k + ")"
		case 3:
			e = "a/(b+" + k + ")"
		}
		if outs {
			fmt.Fprintf(&b, "equal(%s,o[%d])\n", e, i)
		} else {
			fmt.Fprintf(&b, "var v%d = %s\n", i, e)
		}
	}
	b.WriteString("}\n")
	return b.String()
}

func runManyCount(c *manyCase, r *R) {
	distinct := map[string]bool{}
	for i, k := range c.K {
		distinct[fmt.Sprint(c.Kind[i], " ", k)] = true
	}
	cp := compileSrc(c.src(false))
	if len(cp.rows) != len(distinct) {
		r.Failf("%d constraints for %d different operations and assertions:\n%s", len(cp.rows), len(distinct), c.src(false))
	}
	r.LabelIf(len(distinct) < len(c.K), "repeated")
	r.LabelIf(len(c.K) > 100, "more than 100")
	r.NonTrivialIf(len(distinct) > 1)
}

func runManyBind(c *manyCase, r *R) {
	// conflicting assertions about one input
	first := ""
	conflict := false
	only := *c
	only.Kind, only.K = nil, nil
	for i, k := range c.K {
		if c.Kind[i] == 0 {
			conflict = conflict || first != "" && first != k
			first = k
			only.Kind, only.K = append(only.Kind, 0), append(only.K, k)
		}
	}
	if first != "" {
		cp := compileSrc(only.src(false))
		for _, k := range only.K {
			in := []*big.Int{bi(k), bi(c.B)}
			if conflict {
				checkUnsat(r, cp, in, "conflicting assertions "+fmt.Sprint(only.K))
			} else {
				checkSat(r, cp, in, "assertion "+k)
			}
		}
		r.LabelIf(conflict, "conflicting assertions")
	}
	// every output
	a, b := bi(c.A), bi(c.B)
	in := []*big.Int{a, b}
	for i, k := range c.K {
		s := fAdd(b, bi(k))
		var v *big.Int
		switch c.Kind[i] {
		case 0, 2:
			v = fAdd(a, bi(k))
		case 1:
			v = fMul(a, s)
		case 3:
			if s.Sign() == 0 {
				return
			}
			v = fDiv(a, s)
		}
		in = append(in, v)
	}
	cp := compileSrc(c.src(true))
	w := checkSat(r, cp, in, "outputs")
	checkSolved(r, cp, in, w, 0)
	bad := append([]*big.Int{}, in...)
	j := 2 + c.Bad%len(c.K)
	bad[j] = fAdd(bad[j], big.NewInt(1+int64(c.Bad%7)))
	checkUnsat(r, cp, bad, fmt.Sprintf("output %d changed", j-2))
	// the outputs of two operations exchanged
	k := 2 + (c.Bad/len(c.K))%len(c.K)
	if in[j].Cmp(in[k]) != 0 {
		bad = append([]*big.Int{}, in...)
		bad[j], bad[k] = bad[k], bad[j]
		checkUnsat(r, cp, bad, fmt.Sprintf("outputs %d and %d exchanged", j-2, k-2))
	}
	r.NonTrivialIf(len(c.K) > 1)
}
