package main

// C02, C07..C10, D01, E01: witness generation, layout, determinism, gate reuse, the polynomial form.

import (
	"fmt"
	"math/big"
	"strings"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
	"pgregory.net/rapid"
)

// ---- C02 ----

type witCase struct {
	Src    string
	Inputs []string
	In     [][]string
	DivZ   []bool // a division by zero
	MayRej bool   // the program divides by a constant zero, or contradicts itself, on some path
}

func genWit(pr profile) func(t *rapid.T) witCase {
	return func(t *rapid.T) witCase {
		p := pr
		p.outs = rapid.IntRange(1, 3).Draw(t, "outs")
		pc, prog := genProg(t, p, 1)
		c := witCase{Src: pc.Src, Inputs: pc.Inputs, MayRej: pc.Trials[0].Err}
		for k := 0; k < 4; k++ {
			in := genInputs(t, len(pc.Inputs))
			if rapid.IntRange(0, 3).Draw(t, "consistent") > 0 {
				tr, ok := prog.trial(in, nil)
				if !ok {
					in = bigs(pc.Trials[0].In)
				} else {
					in = bigs(tr.In)
				}
				for n := rapid.IntRange(0, 2).Draw(t, "perturb"); n > 0; n-- {
					i := rapid.IntRange(0, len(in)-1).Draw(t, "which")
					if rapid.Bool().Draw(t, "zero") {
						in[i] = new(big.Int)
					} else {
						in[i] = genField(t, "perturbed")
					}
				}
			}
			c.In = append(c.In, strs(in))
			unreduce(t, c.In[k])
			cp := append([]*big.Int{}, in...)
			o := prog.run(&interp{limit: 12000, equal: func(l, r *big.Int) {}, obs: func(i int, v *big.Int) {}}, cp)
			c.DivZ = append(c.DivZ, o.divZero)
		}
		return c
	}
}

func runWit(c *witCase, r *R) {
	var cp *compiled
	if c.MayRej {
		if cp, _ = tryCompile(c.Src); cp == nil {
			r.Label("rejected when compiling")
			return
		}
	} else {
		cp = compileSrc(c.Src)
	}
	for k, s := range c.In {
		in := bigs(s)
		what := fmt.Sprintf("inputs %v of %v", s, c.Inputs)
		sw, conf, free := solveRows(cp.rows, cp.n, cp.known(in))
		switch {
		case c.DivZ[k]:
			// undefined, whatever the constraints say
			checkUnsat(r, cp, in, what+" (division by zero)")
			r.Label("division by zero")
		case conf >= 0:
			checkUnsat(r, cp, in, what)
			r.Label("unsatisfiable")
		case free > 0:
			// 0/0: a wire is not determined; either verdict is fine, a witness has to satisfy everything
			r.Label("undetermined")
			if w, err := cp.witDense(in); err == nil && firstViolated(cp.rows, w) >= 0 {
				r.Failf("%s: witness violates a constraint", what)
			}
			if w, err := cp.witSparse(in); err == nil && firstViolated(cp.srows, w) >= 0 {
				r.Failf("%s: sparse witness violates a constraint", what)
			}
		default:
			w := checkSat(r, cp, in, what)
			for i := range w {
				if modN(w[i]).Cmp(sw[i]) != 0 {
					r.Failf("%s: wire %d is %v, the constraints give %v", what, i, w[i], sw[i])
				}
			}
			r.Label("satisfiable")
			r.NonTrivialIf(k > 0 && len(cp.rows) > 2)
		}
	}
}

// ---- C07 ----

type tamper struct {
	Wires  []int // modulo the number of wires that are not inputs
	Deltas []string
}
type traceCase struct {
	P progCase
	T []tamper
}

func genTrace(pr profile) func(t *rapid.T) traceCase {
	return func(t *rapid.T) traceCase {
		pc, _ := genProg(t, pr, 1)
		c := traceCase{P: pc}
		for k := 0; k < 6; k++ {
			var tm tamper
			for n := rapid.IntRange(1, 3).Draw(t, "ntamper"); n > 0; n-- {
				tm.Wires = append(tm.Wires, rapid.IntRange(0, 600).Draw(t, "wire"))
				d := genNZ(t, "delta")
				switch rapid.IntRange(0, 3).Draw(t, "dk") {
				case 0:
					d = big.NewInt(1)
				case 1:
					d = new(big.Int).Sub(refN, big.NewInt(1))
				}
				tm.Deltas = append(tm.Deltas, d.String())
			}
			c.T = append(c.T, tm)
		}
		return c
	}
}

func runTrace(c *traceCase, r *R) {
	t := c.P.Trials[0]
	if t.Err {
		r.Label("no valid trace")
		return
	}
	for _, f := range c.P.Feat {
		r.Label(f)
	}
	cp := compileSrc(c.P.Src)
	in := bigs(t.In)
	w := checkSat(r, cp, in, "trace")
	checkSolved(r, cp, in, w, 0)
	first := 1 + len(cp.inputs)
	if cp.n <= first {
		return
	}
	r.NonTrivial()
	for _, tm := range c.T {
		bad := append([]*big.Int{}, w...)
		for i, k := range tm.Wires {
			j := first + k%(cp.n-first)
			bad[j] = fAdd(bad[j], bi(tm.Deltas[i]))
		}
		if firstViolated(cp.rows, bad) < 0 && !eqMod(bad, w) {
			r.Failf("two traces for the same inputs: %v and %v\n%s", w, bad, sprintRows(cp.rows))
		}
	}
}

func eqMod(a, b []*big.Int) bool {
	for i := range a {
		if modN(a[i]).Cmp(modN(b[i])) != 0 {
			return false
		}
	}
	return true
}

// ---- C08 ----

type layCase struct {
	Src     string
	Inputs  []string // expected flattened arguments
	Pub     []string // expected public names
	In      []string
	Muls    [][2]int // products of inputs asserted to equal an output
	Outs    []int
	BadProd int
}

func genLay(t *rapid.T) layCase {
	var c layCase
	var params []string
	np := rapid.IntRange(1, 5).Draw(t, "nparams")
	used := map[string]bool{}
	for i := 0; i < np; i++ {
		n := nameStems[rapid.IntRange(0, len(nameStems)-1).Draw(t, "stem")]
		if used[n] || rapid.Bool().Draw(t, "suffix") {
			n = fmt.Sprintf("%s%d", n, i)
		}
		used[n] = true
		for d := rapid.IntRange(0, 3).Draw(t, "dims"); d > 0; d-- {
			k := rapid.IntRange(1, 3).Draw(t, "dim")
			if i == 0 && rapid.IntRange(0, 7).Draw(t, "long") == 0 { // two-digit indices
				k, d = rapid.IntRange(9, 13).Draw(t, "longdim"), 1
			}
			n += fmt.Sprintf("[%d]", k)
		}
		params = append(params, n)
	}
	zeros := func(n string) string { // the same number with leading zeros
		for i := len(n) - 1; i > 0; i-- {
			if n[i-1] == '[' && n[i] >= '0' && n[i] <= '9' && rapid.IntRange(0, 9).Draw(t, "zeros") == 0 {
				n = n[:i] + "0" + n[i:]
			}
		}
		return n
	}
	c.Inputs = flatten(params)
	perm := rapid.Permutation(c.Inputs).Draw(t, "perm")
	perm = perm[:rapid.IntRange(0, len(perm)).Draw(t, "npub")]
	c.Pub = append([]string{}, perm...)
	indexOf := map[string]int{}
	for i, n := range c.Inputs {
		indexOf[n] = i
		c.In = append(c.In, genField(t, "in").String())
	}
	var head []string
	for _, n := range params {
		head = append(head, zeros(n))
	}
	s := "func main(" + strings.Join(head, ",") + "){\n"
	if len(c.Pub) > 0 || rapid.IntRange(0, 4).Draw(t, "emptypublic") == 0 {
		var ps []string
		for _, p := range c.Pub {
			e := nameExpr(p)
			for i, x := range e.a {
				k := int(bi(x.n).Int64())
				switch rapid.IntRange(0, 5).Draw(t, "idxform") {
				case 0:
					e.a[i] = bin("-", numi(k+2), numi(2))
				case 1:
					e.a[i] = bin("-", bin("*", numi(2), numi(k)), numi(k))
				case 2:
					e.a[i] = bin("+", numi(0), numi(k))
				}
			}
			ps = append(ps, zeros(strings.ReplaceAll(plain().expr(e), "[ ", "[")))
		}
		sep := ", "
		if rapid.IntRange(0, 4).Draw(t, "multiline") == 0 {
			sep = ",\n"
		}
		s += "public{" + strings.Join(ps, sep) + "}\n"
	}
	ref := func(i int) string { return zeros(c.Inputs[i]) }
	// distinct outputs, each asserted to equal the product of two inputs that are no outputs
	for k := rapid.IntRange(1, 3).Draw(t, "nprod"); k > 0; k-- {
		o := rapid.IntRange(0, len(c.Inputs)-1).Draw(t, "out")
		isUsed := false
		for i, m := range c.Muls {
			isUsed = isUsed || m[0] == o || m[1] == o || c.Outs[i] == o
		}
		a, b := rapid.IntRange(0, len(c.Inputs)-1).Draw(t, "a"), rapid.IntRange(0, len(c.Inputs)-1).Draw(t, "b")
		for _, x := range c.Outs {
			isUsed = isUsed || a == x || b == x
		}
		if isUsed || a == o || b == o {
			continue
		}
		c.Muls = append(c.Muls, [2]int{a, b})
		c.Outs = append(c.Outs, o)
		c.In[o] = fMul(bi(c.In[a]), bi(c.In[b])).String()
		s += fmt.Sprintf("equal(%s*%s, %s)\n", ref(a), ref(b), ref(o))
	}
	if len(c.Muls) == 0 {
		s += fmt.Sprintf("return %s*%s\n", ref(0), ref(len(c.Inputs)-1))
	}
	c.Src = s + "}\n"
	if len(c.Outs) > 0 {
		c.BadProd = rapid.IntRange(0, len(c.Outs)-1).Draw(t, "badprod")
	}
	return c
}

func runLay(c *layCase, r *R) {
	cp := compileSrc(c.Src)
	if !sameNames(cp.inputs, c.Inputs) {
		r.Failf("inputs of main: %v, want %v", cp.inputs, c.Inputs)
	}
	pub := append([]string{"1"}, c.Pub...)
	if !sameNames(cp.prog.PublicInputs, pub) || cp.publics != len(pub) {
		r.Failf("public inputs %v (%d), want %v", cp.prog.PublicInputs, cp.publics, pub)
	}
	in := bigs(c.In)
	want := []*big.Int{big.NewInt(1)}
	order := []int{}
	isPub := map[string]bool{}
	for _, p := range c.Pub {
		isPub[p] = true
		for i, n := range c.Inputs {
			if n == p {
				order = append(order, i)
			}
		}
	}
	for i, n := range c.Inputs {
		if !isPub[n] {
			order = append(order, i)
		}
	}
	for _, i := range order {
		want = append(want, in[i])
	}
	w := checkSat(r, cp, in, "layout")
	if len(w) < len(want) || !eqMod(want, w[:len(want)]) {
		r.Failf("witness %v does not start with 1, the public inputs %v as declared and the other inputs: %v", w, c.Pub, want)
	}
	checkSolved(r, cp, in, w, 0)
	if len(c.Outs) > 0 {
		bad := append([]*big.Int{}, in...)
		bad[c.Outs[c.BadProd]] = fAdd(bad[c.Outs[c.BadProd]], big.NewInt(1))
		checkUnsat(r, cp, bad, "wrong product")
	}
	r.NonTrivialIf(len(c.Pub) > 0 && len(c.Pub) < len(c.Inputs) && len(c.Outs) > 0)
	r.LabelIf(strings.Contains(strings.Join(c.Inputs, " "), "]["), "more than one dimension")
}

// ---- C09 ----

type detCase struct {
	A, B  string
	In    []string
	Order []int    // 0: compile A, 1: compile B, 2: a witness for A, 3: another one for A
	Alt   []string // inputs of the other witness
	Shift []int    // multiples of the modulus added to the inputs
}

func genDet(t *rapid.T) detCase {
	pr := profile{depth: 2, stmts: 6, div: true, funcs: true, ctrl: true, arrays: true, equals: true, shadow: true, outs: 2}
	pr.bits = rapid.IntRange(0, 60).Draw(t, "bits") == 7
	if pr.bits {
		pr.maxMuls = 45
	}
	a, prog := genProg(t, pr, 1)
	b, _ := genProg(t, pr, 1)
	for a.Trials[0].Err {
		a, prog = genProg(t, profile{depth: 2, stmts: 3, outs: 2}, 1)
	}
	c := detCase{A: a.Src, B: b.Src, In: a.Trials[0].In}
	if rapid.Bool().Draw(t, "near") {
		// the same program with one number changed, or with its inputs declared public in another way
		c.B = variant(t, prog)
	}
	if tr, ok := prog.trial(genInputs(t, len(a.Inputs)), nil); ok && !tr.Err {
		c.Alt = tr.In
	}
	for range c.In {
		c.Shift = append(c.Shift, []int{0, 0, 1, -1, 2, -3}[rapid.IntRange(0, 5).Draw(t, "shift")])
	}
	c.Order = rapid.SliceOfN(rapid.IntRange(0, 3), 2, 6).Draw(t, "order")
	c.Order = append(c.Order, 2, 0)
	return c
}

// variant renders a program that differs from p in one number or in its public inputs.
func variant(t *rapid.T, p *program) string {
	var nums []*ex
	var walk func(e *ex)
	walk = func(e *ex) {
		if e == nil {
			return
		}
		if e.op == "num" {
			nums = append(nums, e)
		}
		for _, a := range e.a {
			walk(a)
		}
	}
	for _, s := range p.main.body {
		if s.k == "obs" {
			walk(s.e)
		}
	}
	if len(nums) > 0 && rapid.Bool().Draw(t, "changenum") {
		e := nums[rapid.IntRange(0, len(nums)-1).Draw(t, "numat")]
		old := e.n
		defer func() { e.n = old }()
		e.n = new(big.Int).Add(bi(e.n), big.NewInt(1)).String()
		return p.render(plain())
	}
	q := *p
	switch {
	case len(p.publics) > 1 && rapid.Bool().Draw(t, "lesspublic"):
		q.publics = p.publics[1:]
	case p.publics == nil:
		q.publics = []*ex{nameExpr(p.inputs[len(p.inputs)-1])}
	default:
		q.publics = nil
	}
	return q.render(plain())
}

func snapshot(cp *compiled) string {
	s := fmt.Sprint(cp.inputs, cp.prog.PublicInputs, cp.publics, cp.n, cp.dense.NumberOfGates, cp.dense.WitnessLength, cp.sparse.NumberOfGates, cp.sparse.WitnessLength, "\n")
	s += fmt.Sprint(cp.dense.L, "\n", cp.dense.R, "\n", cp.dense.E, "\n", cp.dense.O, "\n")
	for i := range cp.sparse.L {
		s += fmt.Sprint(treeToPoly(cp.sparse.L[i]), treeToPoly(cp.sparse.R[i]), treeToPoly(cp.sparse.E[i]), treeToPoly(cp.sparse.O[i]), "\n")
	}
	return s
}

func runDet(c *detCase, r *R) {
	first := compileSrc(c.A)
	want := snapshot(first)
	in := bigs(c.In)
	w0 := checkSat(r, first, in, "first witness")
	for i := range in {
		in[i].Add(in[i], new(big.Int).Mul(refN, big.NewInt(int64(c.Shift[i]))))
	}
	given := fmt.Sprint(in)
	cp := first
	for i, o := range c.Order {
		switch o {
		case 0:
			cp = compileSrc(c.A)
		case 1:
			tryCompile(c.B)
			continue
		case 3:
			if c.Alt != nil {
				checkSat(r, cp, bigs(c.Alt), fmt.Sprintf("step %d: another witness", i))
				r.Label("another witness in between")
			}
		default:
			// the same inputs every time, not reduced, in the very same variables
			args := cc.CombineInputs(cp.inputs, in)
			w, err := cc.CalculateSparseWitness(cp.sparse, args)
			if err != nil || !eqMod(w, w0) {
				r.Failf("step %d: sparse witness %v (%v), was %v", i, w, err, w0)
			}
			if w, err = cc.CalculateWitness(cp.dense, args); err != nil || !eqMod(w, w0) {
				r.Failf("step %d: dense witness %v (%v), was %v", i, w, err, w0)
			}
			if now := fmt.Sprint(in); now != given {
				r.Failf("step %d: the inputs were changed from %v to %v", i, given, now)
			}
		}
		if got := snapshot(cp); got != want {
			r.Failf("step %d of %v: the compiled system differs from the first one\n%s\nfirst:\n%s", i, c.Order, got, want)
		}
	}
	r.NonTrivialIf(len(first.rows) > 2)
	r.LabelIf(strings.Contains(fmt.Sprint(c.Order), "1"), "another program in between")
}

// ---- C10 ----

// A gate is named by its kind and its normalised operands; the same name is never paid for twice.
type reuseCase struct {
	Src    string
	Inputs []string
	In     []string
	Gates  int // distinct gates
	Kinds  []string
}

type rform map[string]int // atom -> positive coefficient, "" is the constant

func (f rform) key() string {
	s := []string{}
	for k, v := range f {
		s = append(s, fmt.Sprintf("%d.%s", v, k))
	}
	sortStrings(s)
	return strings.Join(s, "+")
}

func genReuse(t *rapid.T) reuseCase {
	var c reuseCase
	n := rapid.IntRange(2, 4).Draw(t, "n")
	p := &program{main: &st{}}
	atoms := map[string]*ex{}
	var names []string
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("x%d", i)
		p.main.params = append(p.main.params, nm)
		atoms[nm] = vr(nm)
		names = append(names, nm)
	}
	uses := rapid.IntRange(3, 9).Draw(t, "uses")
	p.main.params = append(p.main.params, fmt.Sprintf("out[%d]", uses))
	p.inputs = flatten(p.main.params)
	draw := func(k int, l string) int { return rapid.IntRange(0, k-1).Draw(t, l) }
	withFunc := draw(2, "func") == 0
	if withFunc {
		p.top = append(p.top,
			&st{k: "func", n: "mul", params: []string{"a", "b"}, body: []*st{{k: "ret", e: bin("*", vr("a"), vr("b"))}}},
			&st{k: "func", n: "quo", params: []string{"b", "a"}, body: []*st{{k: "var", n: "q", e: bin("/", vr("a"), vr("b"))}, {k: "ret", e: vr("q")}}})
	}
	mkForm := func() rform {
		f := rform{}
		k := 1 + draw(3, "terms")
		for i := 0; i < k; i++ {
			f[names[draw(len(names), "atom")]] = 1 + draw(4, "coef")
		}
		if draw(3, "const") == 0 {
			f[""] = 1 + draw(5, "cst")
		}
		g := 0
		for _, v := range f {
			g = gcdInt(g, v)
		}
		for k := range f {
			f[k] /= g
		}
		return f
	}
	render := func(f rform, scale int) *ex {
		var ks []string
		for k := range f {
			ks = append(ks, k)
		}
		sortStrings(ks)
		ks = rapid.Permutation(ks).Draw(t, "order")
		inner := scale > 1 && draw(2, "distribute") == 0
		var sum *ex
		for _, k := range ks {
			co := f[k]
			if inner {
				co *= scale
			}
			var term *ex
			if k == "" {
				term = numi(co)
			} else if term = atoms[k]; co > 1 {
				if draw(2, "side") == 0 {
					term = bin("*", numi(co), term)
				} else {
					term = bin("*", term, numi(co))
				}
			}
			switch {
			case sum == nil:
				sum = term
			case draw(2, "assoc") == 0:
				sum = bin("+", sum, term)
			default:
				sum = bin("+", term, sum)
			}
		}
		if scale > 1 && !inner {
			if draw(2, "scaleside") == 0 {
				sum = bin("*", numi(scale), sum)
			} else {
				sum = bin("*", sum, numi(scale))
			}
		}
		return sum
	}
	scale := func() int {
		if draw(2, "scaled") == 0 {
			return 1
		}
		return 2 + draw(8, "scale")
	}
	gates := map[string]bool{}
	type op struct {
		kind string
		a, b rform
	}
	var ops []op
	var body []*st
	for u := 0; u < uses; u++ {
		var o op
		if len(ops) > 0 && draw(5, "reuse") < 3 {
			o = ops[draw(len(ops), "which")]
		} else {
			o = op{[]string{"*", "*", "*", "/", "/", "g", "add", "add"}[draw(8, "kind")], mkForm(), mkForm()}
			if o.kind == "g" && draw(3, "g") > 0 {
				o.kind = "*"
			}
			ops = append(ops, o)
		}
		// main adds a gate for a scaled value that is given a name, so those are only asserted
		name := (o.kind == "*" || o.kind == "add") && draw(3, "named") == 0
		scale := func() int {
			if name {
				return 1
			}
			return scale()
		}
		a, b := o.a, o.b
		var e *ex
		var key string
		switch o.kind {
		case "*":
			if draw(2, "swap") == 0 {
				a, b = b, a
			}
			ka, kb := o.a.key(), o.b.key()
			if ka > kb {
				ka, kb = kb, ka
			}
			key = ka + " * " + kb
			l, r := render(a, scale()), render(b, scale())
			if withFunc && draw(2, "viafunc") == 0 {
				e = call("mul", l, r)
			} else {
				e = bin("*", l, r)
			}
		case "/":
			key = a.key() + " / " + b.key()
			l, r := render(a, scale()), render(b, scale())
			if isConst(b) {
				key = ""
			}
			if withFunc && draw(2, "viafunc") == 0 {
				e = call("quo", r, l)
			} else {
				e = bin("/", l, r)
			}
		case "g":
			key = "g " + a.key()
			e = call("scalarBaseMultiply", render(a, 1))
		case "add":
			key = "add " + addForms(a, b).key()
			if draw(2, "swap") == 0 {
				a, b = b, a
			}
			e = call("addGateConstraint", render(a, 1), render(b, 1))
		}
		if key != "" {
			gates[key] = true
		}
		c.Kinds = append(c.Kinds, o.kind)
		// sometimes the result gets a name and becomes an atom of later forms
		if name {
			nm := fmt.Sprintf("v%d", u)
			body = append(body, &st{k: "var", n: nm, e: e})
			e = vr(nm)
		}
		body = append(body, &st{k: "obs", e: e, e2: idx("out", numi(u)), n: []string{"", "swap"}[draw(2, "obsform")]})
		if draw(4, "twice") == 0 {
			body = append(body, body[len(body)-1]) // the same assertion again
		}
	}
	p.main.body = body
	c.Gates = len(gates) + uses
	c.Src = p.render(plain())
	c.Inputs = p.inputs
	for {
		in := genInputs(t, len(p.inputs))
		for i := 0; i < n; i++ {
			if in[i].Sign() == 0 {
				in[i] = big.NewInt(int64(i + 1))
			}
		}
		tr, ok := p.trial(in, nil)
		if ok && !tr.Err {
			c.In = tr.In
			return c
		}
	}
}

func gcdInt(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func isConst(f rform) bool { _, k := f[""]; return k && len(f) == 1 }
func addForms(a, b rform) rform {
	f := rform{}
	for k, v := range a {
		f[k] += v
	}
	for k, v := range b {
		f[k] += v
	}
	return f
}
func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func runReuse(c *reuseCase, r *R) {
	cp := compileSrc(c.Src)
	in := bigs(c.In)
	w := checkSat(r, cp, in, "reuse")
	checkSolved(r, cp, in, w, 0)
	if len(cp.rows) != c.Gates {
		r.Failf("%d constraints for %d distinct gates\n%s%s", len(cp.rows), c.Gates, c.Src, sprintRows(cp.rows))
	}
	seen := map[string]int{}
	for i, x := range cp.rows {
		l, rr := fmt.Sprint(x.L), fmt.Sprint(x.R)
		if l > rr {
			l, rr = rr, l
		}
		k := fmt.Sprint(l, rr, x.E, x.O)
		if j, ok := seen[k]; ok {
			r.Failf("constraints %d and %d are the same: %v", j, i, x)
		}
		seen[k] = i
	}
	for _, k := range c.Kinds {
		r.Label("operation " + k)
	}
	r.NonTrivialIf(2*len(c.Kinds) > c.Gates)
	r.LabelIf(2*len(c.Kinds) > c.Gates, "reuse")
}

// ---- D01 ----

type eapCase struct {
	P      progCase
	T      tamper
	At     string
	Second []string // another valid assignment of the same program
	Rnd    bool     // with the randomising constraint
}

func genEap(pr profile, rnd bool) func(t *rapid.T) eapCase {
	return func(t *rapid.T) eapCase {
		p := pr
		pc, prog := genProg(t, p, 1)
		for pc.Trials[0].Err {
			pc, prog = genProg(t, profile{depth: 2, stmts: 3, outs: 2}, 1)
		}
		c := eapCase{P: pc, At: genField(t, "at").String(), Rnd: rnd}
		c.T.Wires = []int{rapid.IntRange(0, 300).Draw(t, "wire")}
		c.T.Deltas = []string{genNZ(t, "delta").String()}
		in := genInputs(t, len(pc.Inputs))
		if rapid.Bool().Draw(t, "relatedtrace") {
			for i := range in {
				in[i] = genRelated(t, bigs(pc.Trials[0].In)[i:i+1], "second")
			}
		}
		if tr, ok := prog.trial(in, nil); ok && !tr.Err {
			c.Second = tr.In
		}
		return c
	}
}

// lagrange evaluates the polynomial through (i, v[i]) at x.
func lagrange(v []*big.Int, x *big.Int) *big.Int {
	sum := new(big.Int)
	for i := range v {
		if v[i].Sign() == 0 {
			continue
		}
		nu, de := big.NewInt(1), big.NewInt(1)
		for j := range v {
			if j != i {
				nu = fMul(nu, fSub(x, big.NewInt(int64(j))))
				de = fMul(de, big.NewInt(int64(i-j)))
			}
		}
		sum = fAdd(sum, fMul(v[i], fDiv(nu, de)))
	}
	return sum
}

func runEap(c *eapCase, r *R) {
	cp := compileCaseR(&c.P, c.Rnd)
	in := bigs(c.P.Trials[0].In)
	witness := func(in []*big.Int, what string) []*big.Int {
		if !c.Rnd {
			return checkSat(r, cp, in, what)
		}
		w, err := cp.witDense(in)
		if err != nil {
			r.Failf("%s: %v", what, err)
		}
		return w
	}
	w := witness(in, "assignment")
	n := len(cp.rows)
	if cp.dense.NumberOfGates != n || cp.sparse.NumberOfGates != n || cp.sparse.WitnessLength != cp.n {
		r.Failf("sizes: %d constraints, %d/%d gates, witness %d/%d", n, cp.dense.NumberOfGates, cp.sparse.NumberOfGates, cp.n, cp.sparse.WitnessLength)
	}
	if len(cp.srows) != n {
		r.Failf("%d sparse constraints, %d dense ones", len(cp.srows), n)
	}
	for i := range cp.rows {
		a, b := cp.rows[i], cp.srows[i]
		if !pEq(a.L, b.L) || !pEq(a.R, b.R) || !pEq(a.E, b.E) || !pEq(a.O, b.O) {
			r.Failf("constraint %d: dense %v, sparse %v", i, a, b)
		}
	}
	if n == 0 {
		return
	}
	before := snapshot(cp)
	td, ts := cp.dense.Transpose(), cp.sparse.TransposeSparse()
	if td.NumberOfGates != n || ts.NumberOfGates != n || td.WitnessLength != cp.n || ts.WitnessLength != cp.n {
		r.Failf("transposed sizes: %d/%d gates of %d, witness %d/%d of %d", td.NumberOfGates, ts.NumberOfGates, n, td.WitnessLength, ts.WitnessLength, cp.n)
	}
	cols := func(sel func(row) poly, j int) []*big.Int {
		v := make([]*big.Int, n)
		for i := range v {
			v[i] = new(big.Int)
			if x, ok := sel(cp.rows[i])[uint64(j)]; ok {
				v[i] = x
			}
		}
		return v
	}
	sels := []func(row) poly{func(x row) poly { return x.L }, func(x row) poly { return x.R }, func(x row) poly { return x.E }, func(x row) poly { return x.O }}
	names := "LREO"
	at := bi(c.At)
	denseT := [][][]*big.Int{td.L, td.R, td.E, td.O}
	sparseT := [][]*utils.AvlTree{ts.L, ts.R, ts.E, ts.O}
	dl, dr, de, do := td.ER1CSToEAP()
	sl, sr, se, so := ts.ER1CSToEAPSparse()
	denseP := [][][]*big.Int{dl, dr, de, do}
	sparseP := [][]*utils.AvlTree{sl, sr, se, so}
	for k, sel := range sels {
		if len(denseT[k]) != cp.n || len(sparseT[k]) != cp.n || len(denseP[k]) != cp.n || len(sparseP[k]) != cp.n {
			r.Failf("%c: %d, %d columns, %d, %d polynomials for %d wires", names[k], len(denseT[k]), len(sparseT[k]), len(denseP[k]), len(sparseP[k]), cp.n)
		}
		for j := 0; j < cp.n; j++ {
			want := cols(sel, j)
			wp := denseToPoly(want)
			if !pEq(denseToPoly(denseT[k][j]), wp) || !pEq(treeToPoly(sparseT[k][j]), wp) {
				r.Failf("column %d of %c: dense %v, sparse %v, want %v", j, names[k], denseT[k][j], treeToPoly(sparseT[k][j]), want)
			}
			pd, ps := denseToPoly(denseP[k][j]), treeToPoly(sparseP[k][j])
			if int(pd.deg()) >= n || int(ps.deg()) >= n {
				r.Failf("polynomial %d of %c: degree %d (dense), %d (sparse) for %d constraints", j, names[k], pd.deg(), ps.deg(), n)
			}
			x := lagrange(want, at)
			if g := pEval(pd, at); g.Cmp(x) != 0 {
				r.Failf("dense polynomial %d of %c at %v is %v, want %v", j, names[k], at, g, x)
			}
			if g := pEval(ps, at); g.Cmp(x) != 0 {
				r.Failf("sparse polynomial %d of %c at %v is %v, want %v", j, names[k], at, g, x)
			}
		}
	}
	domain := denseToPoly(utils.Field.PolynomialField.DomainPolynomial(n))
	// p(x) for the honest trace, a tampered one, and the honest one again
	bad := append([]*big.Int{}, w...)
	for i, k := range c.T.Wires {
		j := k % cp.n
		bad[j] = fAdd(bad[j], bi(c.T.Deltas[i]))
	}
	traces := [][]*big.Int{w, bad, w}
	if c.Second != nil {
		traces = append(traces, witness(bigs(c.Second), "second assignment"))
	}
	for ti, tr := range traces {
		copyOf := fmt.Sprint(tr)
		pd := denseToPoly(zkSNARK.CombinePolynomials2(tr, td))
		ps := treeToPoly(zkSNARK.CombineSparsePolynomials(tr, ts))
		if fmt.Sprint(tr) != copyOf {
			r.Failf("trace %d was changed", ti)
		}
		if !pEq(pd, ps) {
			r.Failf("trace %d: dense p(x) %v, sparse %v", ti, pd, ps)
		}
		val := func(sel func(row) poly) []*big.Int {
			v := make([]*big.Int, n)
			for i := range v {
				v[i] = pDot(sel(cp.rows[i]), tr)
			}
			return v
		}
		l, rr, e, o := val(sels[0]), val(sels[1]), val(sels[2]), val(sels[3])
		g := make([]*big.Int, n)
		for i := range e {
			g[i] = refScalarBaseX(e[i])
		}
		for _, x := range []*big.Int{at, big.NewInt(0), big.NewInt(int64(n - 1))} {
			want := fSub(fAdd(fMul(lagrange(l, x), lagrange(rr, x)), lagrange(g, x)), lagrange(o, x))
			if got := pEval(pd, x); got.Cmp(want) != 0 {
				r.Failf("trace %d: p(%v) = %v, want %v", ti, x, got, want)
			}
		}
		sat := firstViolated(cp.rows, tr) < 0
		_, rem := pDivMod(pd, domain)
		if sat != (len(rem) == 0) {
			r.Failf("trace %d satisfies the constraints: %v, but p(x) mod the domain polynomial is %v", ti, sat, rem)
		}
		r.LabelIf(!sat, "violating trace")
	}
	if snapshot(cp) != before {
		r.Failf("the constraint system was changed")
	}
	r.NonTrivialIf(n > 1)
	r.LabelIf(n > cp.n, "more constraints than wires")
	r.LabelIf(n < cp.n, "fewer constraints than wires")
}

// pDivMod divides by a monic polynomial.
func pDivMod(a, b poly) (q, rem poly) {
	q, rem = poly{}, pAdd(a, poly{})
	for len(rem) > 0 && rem.deg() >= b.deg() {
		d := uint64(rem.deg())
		s := rem[d]
		sh := d - uint64(b.deg())
		q.add(sh, s)
		for k, v := range b {
			rem.add(k+sh, fSub(new(big.Int), fMul(v, s)))
		}
	}
	return
}

func init() {
	mix := profile{depth: 2, stmts: 6, div: true, funcs: true, ctrl: true, arrays: true, equals: true}
	mixExt := mix
	mixExt.ext = true
	register("C02",
		mk("arbitrary inputs", "a satisfiable assignment besides the first one, and more than two constraints", 30000, 200000, genWit(mix), runWit),
		mk("extension", "a satisfiable assignment besides the first one, and more than two constraints", 100, 6000, genWit(mixExt), runWit))
	tr := mix
	tr.outs = 2
	trB := tr
	trB.bits = true
	trE := tr
	trE.ext = true
	nt := "a valid trace with at least one wire that is no input"
	register("C07",
		mk("traces", nt, 30000, 200000, genTrace(tr), runTrace),
		mk("extension", nt, 150, 5000, genTrace(trE), runTrace),
		mk("bits", nt, 60, 2000, genTrace(trB), runTrace))
	register("C08",
		mk("layout", "some but not all inputs are public, and at least one product of inputs is asserted", 60000, 600000, genLay, runLay))
	register("C09",
		mk("histories", "more than two constraints", 1200, 20000, genDet, runDet))
	register("C10",
		mk("gate reuse", "fewer distinct gates than operations and assertions", 24000, 200000, genReuse, runReuse),
		mk("many gates", "more than one different gate", 3000, 30000, genMany(1500), runManyCount))
	d := mix
	d.outs = 2
	dE := d
	dE.ext, dE.extHeavy = true, true
	register("D01",
		mk("classic", "more than one constraint", 5000, 40000, genEap(d, false), runEap),
		mk("extension", "more than one constraint", 300, 6000, genEap(dE, false), runEap),
		mk("randomised", "more than one constraint", 300, 5000, genEap(d, true), runEap),
		mk("written systems", "more than one constraint", 1500, 15000, genSysEap(false), runEap),
		mk("written systems with exponents", "more than one constraint", 150, 3000, genSysEap(true), runEap))
	register("E01",
		mk("programs", progRule, 500, 8000, genProgCase(profile{depth: 3, stmts: 3, extHeavy: true, ext: true, funcs: true, outs: 2}, 1), runExtCase))
}

func runExtCase(c *progCase, r *R) {
	runProgCase(c, r)
	r.nontrivial = r.nontrivial && strings.Contains(c.Src, "scalarBaseMultiply")
	r.LabelIf(strings.Contains(c.Src, "scalarBaseMultiply"), "base multiplication")
}
