package main

// T01: computations on objects of their own may run at the same time. This property is searched with a binary built
// with the race detector (lib.sh), which ends the process when two goroutines touch the same memory without order.
//
// A case is a list of cases of other sub-checks. They run in goroutines of their own, with their own oracles. A job that
// fails is run again alone: only one that holds alone fails here.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strings"
	"sync"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
	"pgregory.net/rapid"
)

// parallelSubs are the sub-checks whose cases may run next to others: no global settings, no processes of their own.
// The number is the weight.
var parallelSubs = []struct {
	prop, sub string
	w         int
}{
	{"C01", "straight line", 4}, {"C03", "assertions", 2}, {"C03", "similar assertions", 1}, {"C04", "functions", 4}, {"C04", "higher order", 3},
	{"C05", "control flow", 4}, {"C07", "traces", 3}, {"C08", "layout", 1}, {"C10", "gate reuse", 2}, {"C16", "named inputs", 2}, {"C09", "histories", 1},
	{"C13", "tokens", 4}, {"C15", "randomised systems", 2}, {"C02", "arbitrary inputs", 2}, {"C17", "classic", 3},
	{"D01", "classic", 4}, {"D01", "written systems", 2}, {"E01", "programs", 1}, {"C11", "rewritten programs", 2},
	{"P01", "G1 histories", 2}, {"P01", "G2 histories", 1}, {"P03", "marshalling", 2}, {"P04", "pairing products", 1}, {"P05", "target group", 1},
	{"U01", "field", 3}, {"U02", "dense", 3}, {"U03", "sparse", 3}, {"U04", "division", 2}, {"U05", "interpolation", 4}, {"U06", "ordered map", 3},
	{"U07", "evaluation", 2}, {"U08", "operands unchanged", 3},
}

var parallelHeavy = []struct {
	prop, sub string
	w         int
}{
	{"S01", "valid proofs", 4}, {"S04", "violated constraints", 2}, {"S01", "written systems", 1},
	{"P02", "bilinearity", 2}, {"P04", "pairing products", 2}, {"D01", "classic", 2}, {"U05", "interpolation", 2}, {"C17", "classic", 1},
	{"S01", "extension", 1}, {"C16", "extension", 1}, {"C07", "extension", 1},
}

type parJob struct {
	Prop, Sub string
	Case      json.RawMessage
}

type parCase struct {
	Jobs   []parJob
	Rounds int
}

// the field of a sub-check over several fields is a setting of the whole process: only the library's is used here
var otherField = regexp.MustCompile(`^\{"Q":[0-9]+,`)

func genParallel(from []struct {
	prop, sub string
	w         int
}, most, rounds int) func(t *rapid.T) parCase {
	return func(t *rapid.T) (c parCase) {
		total := 0
		for _, s := range from {
			total += s.w
		}
		n := rapid.IntRange(2, most).Draw(t, "jobs")
		c.Rounds = rapid.IntRange(1, rounds).Draw(t, "rounds")
		same := rapid.IntRange(0, 3).Draw(t, "same kind") == 0
		for i := 0; i < n; i++ {
			if i > 0 && rapid.IntRange(0, 7).Draw(t, "same job") == 0 {
				c.Jobs = append(c.Jobs, c.Jobs[i-1])
				continue
			}
			var j parJob
			if same && i > 0 {
				j.Prop, j.Sub = c.Jobs[0].Prop, c.Jobs[0].Sub
			} else {
				k := rapid.IntRange(0, total-1).Draw(t, "kind")
				for _, s := range from {
					if k -= s.w; k < 0 {
						j.Prop, j.Sub = s.prop, s.sub
						break
					}
				}
			}
			raw := mustJSON(findProp(j.Prop).sub(j.Sub).Gen(t))
			j.Case = otherField.ReplaceAll(raw, []byte(`{"Q":0,`))
			c.Jobs = append(c.Jobs, j)
		}
		return
	}
}

func (j *parJob) run() (msg string, labels map[string]bool, nontrivial bool) {
	p := findProp(j.Prop)
	if p == nil || p.sub(j.Sub) == nil {
		return "unknown sub-check " + j.Sub, nil, false
	}
	s := p.sub(j.Sub)
	c := s.New()
	if err := json.Unmarshal(j.Case, c); err != nil {
		return "undecodable case: " + err.Error(), nil, false
	}
	m, r := runCase(s, c)
	return m, r.labels, r.nontrivial
}

// together starts the functions at the same time and waits for all.
func together(fs []func()) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
}

func runParallel(c *parCase, r *R) {
	busy := 0
	for round := 0; round < c.Rounds; round++ {
		msgs := make([]string, len(c.Jobs))
		nt := make([]bool, len(c.Jobs))
		fs := make([]func(), len(c.Jobs))
		for i := range c.Jobs {
			fs[i] = func() { msgs[i], _, nt[i] = c.Jobs[i].run() }
		}
		together(fs)
		for i, m := range msgs {
			if m != "" {
				if alone, _, _ := c.Jobs[i].run(); alone != "" {
					r.Label("a job fails alone too")
					continue
				}
				r.Failf("%s/%s fails next to the others, and holds alone: %s", c.Jobs[i].Prop, c.Jobs[i].Sub, m)
			}
			if round == 0 && nt[i] {
				busy++
			}
		}
	}
	for _, j := range c.Jobs {
		r.Label(j.Prop)
	}
	r.Label(fmt.Sprintf("%d jobs", len(c.Jobs)))
	r.NonTrivialIf(busy >= 2)
}

// --- one compiled system with several users

type sharedCase struct {
	Prog  progCase
	Users []sharedUser
}
type sharedUser struct {
	What, Trial int
	Alter       int
}

func genShared(t *rapid.T) (c sharedCase) {
	pr := profile{depth: 2, stmts: 3, div: true, funcs: true, ctrl: true, arrays: true, equals: true, outs: 2, maxMuls: 25}
	c.Prog, _ = genProg(t, pr, 3)
	n := rapid.IntRange(2, 6).Draw(t, "users")
	for i := 0; i < n; i++ {
		c.Users = append(c.Users, sharedUser{rapid.IntRange(0, 5).Draw(t, "what"), rapid.IntRange(0, 9).Draw(t, "trial"), rapid.IntRange(0, 9).Draw(t, "alter")})
	}
	return
}

func showWitness(w []*big.Int, err error) string {
	if err != nil {
		return "refused"
	}
	return fmt.Sprint(w)
}

func runShared(c *sharedCase, r *R) {
	cp0, rej := tryCompile(c.Prog.Src)
	if cp0 == nil {
		r.Label("rejected: " + clip(rej, 20))
		return
	}
	if len(cp0.rows) == 0 {
		r.Label("no constraints")
		return
	}
	td, ts := cp0.dense.Transpose(), cp0.sparse.TransposeSparse()
	use := func(u sharedUser) (out string) {
		defer func() {
			if e := recover(); e != nil {
				out = fmt.Sprint("panic: ", e)
			}
		}()
		tr := c.Prog.Trials[u.Trial%len(c.Prog.Trials)]
		in := bigs(tr.In)
		if u.Alter < len(in) {
			in[u.Alter] = fAdd(in[u.Alter], big.NewInt(1))
		}
		switch u.What {
		case 0:
			return showWitness(cp0.witDense(in))
		case 1:
			return showWitness(cp0.witSparse(in))
		case 2:
			l, rr, e, o := td.ER1CSToEAP()
			return fmt.Sprint(l, rr, e, o)
		case 3:
			l, rr, e, o := ts.ER1CSToEAPSparse()
			s := ""
			for _, m := range [][]*utils.AvlTree{l, rr, e, o} {
				for _, x := range m {
					s += treeToPoly(x).String() + ";"
				}
			}
			return s
		case 4:
			d := cp0.dense.Transpose()
			return fmt.Sprint(d.L, d.R, d.E, d.O)
		}
		return strings.Join(cp0.prog.GetMainCircuit().Inputs, ",") + fmt.Sprint(cp0.prog.GlobalInputCount(), cc.CombineInputs(cp0.inputs, in))
	}
	got := make([]string, len(c.Users))
	var fs []func()
	for i, u := range c.Users {
		fs = append(fs, func() { got[i] = use(u) })
	}
	together(fs)
	for i, u := range c.Users {
		if want := use(u); got[i] != want {
			r.Failf("user %d (%d) of a shared system gets %s, alone %s", i, u.What, clip(got[i], 300), clip(want, 300))
		}
		r.Label(fmt.Sprint("use ", u.What))
	}
	r.NonTrivialIf(len(cp0.rows) > 1)
}

// --- one pair of keys with several provers and verifiers

type keyCase struct {
	S     snarkCase
	Ext   *extCase
	Users []keyUser
}
type keyUser struct {
	Verify bool
	Trial  int
	Wrong  int // which signal the verifier gets wrong; 0 none
}

func genKey(t *rapid.T) (c keyCase) {
	if rapid.IntRange(0, 2).Draw(t, "ext") == 0 {
		e := genExtProof(t)
		c.Ext = &e
		c.S.Sparse = rapid.Bool().Draw(t, "sparse")
	} else {
		p, _ := genProg(t, profile{depth: 2, stmts: 2, div: true, funcs: true, ctrl: true, arrays: true, equals: true, outs: 2, maxMuls: 8}, 2)
		c.S = snarkCase{Prog: p, Sparse: rapid.Bool().Draw(t, "sparse")}
	}
	n := rapid.IntRange(2, 5).Draw(t, "users")
	for i := 0; i < n; i++ {
		u := keyUser{Verify: rapid.Bool().Draw(t, "verify"), Trial: rapid.IntRange(0, 3).Draw(t, "trial")}
		if u.Verify && rapid.IntRange(0, 2).Draw(t, "wrong") == 0 {
			u.Wrong = rapid.IntRange(1, 9).Draw(t, "signal")
		}
		c.Users = append(c.Users, u)
	}
	return
}

func runKey(c *keyCase, r *R) {
	var cpd *compiled
	var ws [][]*big.Int
	if c.Ext != nil {
		cpd = compileSrc(c.Ext.Src)
		if c.Ext.Publics > 0 {
			cpd.publics = 1 + c.Ext.Publics%(cpd.n-1)
		}
		w, err := cpd.witDense(bigs(c.Ext.In))
		if err != nil {
			r.Label("no witness")
			return
		}
		for _, x := range cpd.rows {
			if pDot(x.E, w).Cmp(bi(c.Ext.T)) != 0 {
				r.Label("an exponent differs")
				return
			}
		}
		ws = append(ws, w)
		r.Label("extension")
	} else {
		if cpd = c.S.open(r); cpd == nil || len(cpd.rows) > 16 {
			return
		}
		for _, t := range c.S.Prog.Trials {
			if t.Err {
				continue
			}
			if w, err := cpd.witDense(bigs(t.In)); err == nil {
				ws = append(ws, w)
			}
		}
	}
	if len(ws) == 0 {
		return
	}
	p := newProver(cpd, c.S.Sparse)
	// what each does, with a proof of its own: the result as text
	use := func(u keyUser, mine *zkSNARK.Proof) string {
		w := ws[u.Trial%len(ws)]
		if u.Verify {
			sig := cp(w[:cpd.publics])
			if u.Wrong > 0 {
				i := u.Wrong % len(sig)
				sig[i] = fAdd(sig[i], big.NewInt(1))
			}
			return fmt.Sprint(p.verify(mine, sig))
		}
		pr, why := p.prove(w)
		if pr == nil {
			return "no proof: " + why
		}
		return fmt.Sprintf("%x %x %x %x", pr.PiA.Marshal(), pr.PiB.Marshal(), pr.PiC.Marshal(), pr.PiF.Marshal())
	}
	proofs := make([]*zkSNARK.Proof, len(c.Users))
	again := make([]*zkSNARK.Proof, len(c.Users))
	for i, u := range c.Users {
		if u.Verify {
			proofs[i], _ = p.prove(ws[u.Trial%len(ws)])
			again[i], _ = p.prove(ws[u.Trial%len(ws)])
			if proofs[i] == nil || again[i] == nil {
				r.Label("no proof")
				return
			}
		}
	}
	got := make([]string, len(c.Users))
	var fs []func()
	for i, u := range c.Users {
		fs = append(fs, func() { got[i] = use(u, proofs[i]) })
	}
	together(fs)
	kinds := map[bool]bool{}
	for i, u := range c.Users {
		if want := use(u, again[i]); got[i] != want {
			r.Failf("user %d of shared keys (verifying: %v) gets %s, alone %s", i, u.Verify, clip(got[i], 300), clip(want, 300))
		}
		kinds[u.Verify] = true
	}
	r.LabelIf(kinds[false], "proving")
	r.LabelIf(kinds[true], "verifying")
	r.NonTrivial()
}

func init() {
	register("T01",
		mk("one system, several users", "more than one constraint", 1500, 10000, genShared, runShared),
		mk("computations side by side", "at least two jobs that are not trivial by the rules of their sub-checks", 600, 4000, genParallel(parallelSubs, 6, 2), runParallel),
		mk("one setup, several users", "keys were made, and two or more users prove or verify with them", 60, 300, genKey, runKey),
		mk("setups and proofs side by side", "at least two jobs that are not trivial by the rules of their sub-checks", 24, 120, genParallel(parallelHeavy, 3, 1), runParallel),
	)
}
