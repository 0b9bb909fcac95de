package main

import (
	"fmt"
	"math/big"

	"pgregory.net/rapid"
)

// tryCompile compiles and reports a rejection (panic) of the compiler.
func tryCompile(src string) (c *compiled, rejected string) {
	defer func() {
		if e := recover(); e != nil {
			c, rejected = nil, fmt.Sprint(e)
			if rejected == "" {
				rejected = "rejected"
			}
		}
	}()
	return compileSrc(src), ""
}

func sameNames(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// runProgCase is the oracle shared by the compiler properties: the program accepts exactly the outputs that the
// reference interpreter computes.
func runProgCase(c *progCase, r *R) {
	allErr := true
	for _, t := range c.Trials {
		allErr = allErr && t.Err
	}
	var cp *compiled
	if allErr {
		var rej string
		if cp, rej = tryCompile(c.Src); cp == nil {
			r.Label("rejected when compiling")
			_ = rej
			return
		}
	} else {
		cp = compileSrc(c.Src)
	}
	for _, f := range c.Feat {
		r.Label(f)
	}
	if !sameNames(cp.inputs, c.Inputs) {
		r.Failf("inputs of main: %v, want %v", cp.inputs, c.Inputs)
	}
	r.LabelIf(len(cp.rows) > 10, "more than 10 constraints")
	for ti, t := range c.Trials {
		in := bigs(t.In)
		if t.Err {
			checkUnsat(r, cp, in, fmt.Sprintf("trial %d (must be rejected)", ti))
			r.Label("invalid inputs")
			continue
		}
		w := checkSat(r, cp, in, fmt.Sprintf("trial %d", ti))
		checkSolved(r, cp, in, w, ti)
		for _, k := range t.Chk {
			bad := append([]*big.Int{}, in...)
			bad[k] = fAdd(bad[k], bi(t.Delta))
			what := fmt.Sprintf("trial %d with %s=%v instead of %v", ti, c.Inputs[k], bad[k], in[k])
			checkUnsat(r, cp, bad, what)
			if _, conf, free := solveRows(cp.rows, cp.n, cp.known(bad)); conf < 0 {
				r.Failf("%s: no constraint is violated (%d wires undetermined)", what, free)
			}
		}
		r.NonTrivialIf(len(t.Chk) > 0 && len(cp.rows) > 2)
	}
}

func runBitsCase(c *progCase, r *R) {
	runProgCase(c, r)
	r.nontrivial = r.nontrivial && r.labels["split"]
}

// checkSolved: the constraints determine the witness from the inputs.
func checkSolved(r *R, cp *compiled, in, w []*big.Int, ti int) {
	sw, conf, free := solveRows(cp.rows, cp.n, cp.known(in))
	if conf >= 0 {
		r.Failf("trial %d: constraint %d %v cannot be satisfied with the inputs", ti, conf, cp.rows[conf])
	}
	if free > 0 {
		for k := range sw {
			if sw[k] == nil {
				r.Failf("trial %d: wire %d is not determined by the inputs\n%s", ti, k, sprintRows(cp.rows))
			}
		}
	}
	for k := range sw {
		if sw[k].Cmp(modN(w[k])) != 0 {
			r.Failf("trial %d: wire %d has value %v, the constraints give %v", ti, k, w[k], sw[k])
		}
	}
}

// ---- C14: bits that are no decomposition ----

type bitCase struct {
	P progCase
	T []struct {
		Split, Bit, Op int
		K              string
	}
}

func genBits(t *rapid.T) bitCase {
	pc, _ := genProg(t, profile{depth: 2, stmts: 6, funcs: true, ctrl: true, arrays: true, bits: true, outs: 2}, 1)
	c := bitCase{P: pc}
	for i := 0; i < 8; i++ {
		c.T = append(c.T, struct {
			Split, Bit, Op int
			K              string
		}{rapid.IntRange(0, 3).Draw(t, "split"), rapid.IntRange(0, 253).Draw(t, "bit"), rapid.IntRange(0, 5).Draw(t, "op"), genNZ(t, "k").String()})
	}
	return c
}

func runBits(c *bitCase, r *R) {
	t := c.P.Trials[0]
	if t.Err {
		return
	}
	cp := compileSrc(c.P.Src)
	w := checkSat(r, cp, bigs(t.In), "bits")
	checkSolved(r, cp, bigs(t.In), w, 0)
	var splits []split
	rows := splitRows(cp.rows)
	for i := range cp.rows {
		if s, ok := rows[i]; ok {
			splits = append(splits, s)
		}
	}
	if len(splits) == 0 {
		return
	}
	r.NonTrivial()
	for _, e := range c.T {
		s := splits[e.Split%len(splits)]
		for i, b := range s.bits {
			if modN(w[b]).Cmp(big.NewInt(int64(modN(w[s.x]).Bit(i)))) != 0 {
				r.Failf("bit %d of %v is %v", i, w[s.x], w[b])
			}
		}
		bad := append([]*big.Int{}, w...)
		b, up := s.bits[e.Bit], s.bits[(e.Bit+1)%254]
		switch e.Op {
		case 0: // flip a bit
			bad[b] = fSub(big.NewInt(1), bad[b])
		case 1: // the same sum with digits that are no bits
			bad[b] = fAdd(bad[b], big.NewInt(2))
			bad[up] = fSub(bad[up], big.NewInt(1))
			if e.Bit == 253 {
				bad[up] = fSub(bad[up], fSub(pow2(254), big.NewInt(1)))
			}
		case 2: // exchange two bits
			bad[b], bad[up] = bad[up], bad[b]
			if bad[b].Cmp(bad[up]) == 0 {
				continue
			}
		case 3: // everything in the lowest bit
			for _, k := range s.bits {
				bad[k] = new(big.Int)
			}
			bad[s.bits[0]] = bad[s.x]
			if modN(bad[s.x]).BitLen() <= 1 {
				continue
			}
		case 4:
			bad[b] = fAdd(bad[b], bi(e.K))
		case 5: // another number altogether
			v := modN(fAdd(bad[s.x], bi(e.K)))
			for i, k := range s.bits {
				bad[k] = big.NewInt(int64(v.Bit(i)))
			}
		}
		if firstViolated(cp.rows, bad) < 0 {
			r.Failf("no constraint is violated with wrong bits of %v (bit %d, operation %d)", w[s.x], e.Bit, e.Op)
		}
	}
}

func pow2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

func genProgCase(pr profile, trials int) func(t *rapid.T) progCase {
	return func(t *rapid.T) progCase {
		c, _ := genProg(t, pr, trials)
		return c
	}
}

const progRule = "more than two constraints, and at least one output the program asserts to equal its result"

func init() {
	register("C01",
		mk("straight line", progRule, 24000, 150000, genProgCase(profile{depth: 4, stmts: 4, div: true, bigNum: true, outs: 2}, 2), runProgCase),
		mk("large expressions", largeRule, 4000, 50000, genLarge(largeSum, largeNest, largeChain, largeNames, largeNumber), runLarge))
	register("C03",
		mk("assertions", progRule, 10000, 100000, genProgCase(profile{depth: 2, stmts: 8, equals: true, funcs: true, ctrl: true, arrays: true, outs: 7}, 2), runProgCase),
		mk("extension", progRule, 600, 15000, genProgCase(profile{depth: 2, stmts: 8, equals: true, funcs: true, ctrl: true, arrays: true, ext: true, outs: 7}, 2), runProgCase),
		mk("similar assertions", "more than one assertion", 2000, 20000, genMany(30), runManyBind))
	register("C14",
		mk("bits", progRule, 400, 8000, genProgCase(profile{depth: 2, stmts: 8, funcs: true, ctrl: true, arrays: true, bits: true, outs: 2}, 2), runBitsCase),
		mk("wrong bits", "at least one value is split", 200, 4000, genBits, runBits))
	register("C04",
		mk("functions", progRule, 20000, 100000, genProgCase(profile{depth: 2, stmts: 6, funcs: true, hof: true, shadow: true, ctrl: true, arrays: true, outs: 2}, 2), runProgCase),
		mk("higher order", "a function is passed as an argument or partially applied", 20000, 150000, genHof, runHofCase),
		mk("many functions", largeRule, 4000, 50000, genLarge(largeCalls, largeRecursion, largeParams, largeApply, largeScopes), runLarge))
	register("C05",
		mk("control flow", progRule, 30000, 200000, genProgCase(profile{depth: 2, stmts: 8, ctrl: true, arrays: true, bigStatic: true, outs: 3}, 2), runProgCase),
		mk("many rounds", largeRule, 4000, 50000, genLarge(largeLoop, largeDown, largePower, largeGrid, largeElse, largeDeep, largeArray), runLarge))
}
