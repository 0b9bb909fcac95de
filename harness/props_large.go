package main

// Programs of few kinds of statements but many of them, or deeply nested ones: what goes wrong only beyond some size
// (C01, C04, C05).

import (
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

type largePart struct {
	name string
	size int
	top  string
	body string
	outs []string
	eval func(in []*big.Int) []*big.Int // nil: to be rejected
}

type largeGen func(t *rapid.T, id string) largePart

func li(i int) *big.Int { return big.NewInt(int64(i)) }

// largeSize draws a number up to the given one, mostly small ones.
func largeSize(t *rapid.T, most int) int {
	switch rapid.IntRange(0, 3).Draw(t, "size") {
	case 0:
		return rapid.IntRange(1, min(8, most)).Draw(t, "n")
	case 1:
		return rapid.IntRange(1, most).Draw(t, "n")
	default:
		return rapid.IntRange(1, max(1, most/4)).Draw(t, "n")
	}
}

var largeVars = []string{"x", "y", "z"}

func largeVar(t *rapid.T) int { return rapid.IntRange(0, 2).Draw(t, "var") }

func one(v *big.Int) []*big.Int { return []*big.Int{v} }

func lines(s []string) string { return strings.Join(s, "\n") + "\n" }

// --- expressions

func largeSum(t *rapid.T, id string) largePart {
	n := largeSize(t, 300)
	s := ""
	vs, ks := make([]int, n), make([]int64, n)
	for i := range vs {
		vs[i], ks[i] = rapid.IntRange(0, 3).Draw(t, "v"), int64(rapid.IntRange(0, 99).Draw(t, "k"))
		op := "+"
		if i > 0 && rapid.Bool().Draw(t, "minus") {
			op = "-"
		}
		if i > 0 {
			s += op
		}
		switch {
		case vs[i] == 3:
			s += fmt.Sprint(ks[i])
		case ks[i] == 1:
			s += largeVars[vs[i]]
		default:
			s += fmt.Sprintf("%d*%s", ks[i], largeVars[vs[i]])
		}
		if op == "-" {
			ks[i] = -ks[i]
		}
	}
	return largePart{"sum", n, "", "", []string{s}, func(in []*big.Int) []*big.Int {
		v := new(big.Int)
		for i, k := range ks {
			if vs[i] == 3 {
				v = fAdd(v, big.NewInt(k))
			} else {
				v = fAdd(v, fMul(big.NewInt(k), in[vs[i]]))
			}
		}
		return one(v)
	}}
}

func largeNest(t *rapid.T, id string) largePart {
	n := largeSize(t, 60)
	s := "x"
	var steps []func(v *big.Int, in []*big.Int) *big.Int
	for i := 0; i < n; i++ {
		k := int64(rapid.IntRange(1, 9).Draw(t, "k"))
		j := largeVar(t)
		kv := big.NewInt(k)
		switch rapid.IntRange(0, 6).Draw(t, "op") {
		case 0:
			s = fmt.Sprintf("(%s+%d)", s, k)
			steps = append(steps, func(v *big.Int, in []*big.Int) *big.Int { return fAdd(v, kv) })
		case 1:
			s = fmt.Sprintf("(%d-%s)", k, s)
			steps = append(steps, func(v *big.Int, in []*big.Int) *big.Int { return fSub(kv, v) })
		case 2:
			s = fmt.Sprintf("(%d*%s)", k, s)
			steps = append(steps, func(v *big.Int, in []*big.Int) *big.Int { return fMul(kv, v) })
		case 3:
			s = fmt.Sprintf("(%s*%s)", s, largeVars[j])
			steps = append(steps, func(v *big.Int, in []*big.Int) *big.Int { return fMul(v, in[j]) })
		case 4:
			s = fmt.Sprintf("(%s-%s)", largeVars[j], s)
			steps = append(steps, func(v *big.Int, in []*big.Int) *big.Int { return fSub(in[j], v) })
		case 5:
			s = fmt.Sprintf("(%s+%s)", s, largeVars[j])
			steps = append(steps, func(v *big.Int, in []*big.Int) *big.Int { return fAdd(v, in[j]) })
		case 6:
			s = "(" + s + ")"
		}
	}
	return largePart{"nesting", n, "", "", []string{s}, func(in []*big.Int) []*big.Int {
		v := modN(in[0])
		for _, f := range steps {
			v = f(v, in)
		}
		return one(v)
	}}
}

func largeChain(t *rapid.T, id string) largePart {
	n := largeSize(t, 60)
	s := "x"
	vs, div := make([]int, n), make([]bool, n)
	for i := range vs {
		vs[i], div[i] = largeVar(t), rapid.IntRange(0, 4).Draw(t, "div") == 0
		if div[i] {
			s += "/" + largeVars[vs[i]]
		} else {
			s += "*" + largeVars[vs[i]]
		}
	}
	return largePart{"product", n, "", "", []string{s}, func(in []*big.Int) []*big.Int {
		v := modN(in[0])
		for i, j := range vs {
			m := modN(in[j])
			if div[i] {
				if m.Sign() == 0 {
					return nil
				}
				m.ModInverse(m, refN)
			}
			v = fMul(v, m)
		}
		return one(v)
	}}
}

// largeNames: many named values, each made of two earlier ones
func largeNames(t *rapid.T, id string) largePart {
	n := largeSize(t, 120)
	var b []string
	type def struct{ l, r, op int }
	var ds []def
	name := func(i int) string {
		if i < 3 {
			return largeVars[i]
		}
		return fmt.Sprintf("v%s%d", id, i)
	}
	for i := 0; i < n; i++ {
		d := def{rapid.IntRange(max(0, i-6), i+2).Draw(t, "l"), rapid.IntRange(0, i+2).Draw(t, "r"), rapid.IntRange(0, 2).Draw(t, "op")}
		ds = append(ds, d)
		b = append(b, fmt.Sprintf("var %s = %s%s%s", name(i+3), name(d.l), []string{"+", "-", "*"}[d.op], name(d.r)))
	}
	return largePart{"names", n, "", lines(b), []string{name(n + 2), name(n/2 + 2)}, func(in []*big.Int) []*big.Int {
		v := []*big.Int{modN(in[0]), modN(in[1]), modN(in[2])}
		for _, d := range ds {
			f := fMul
			switch d.op {
			case 0:
				f = fAdd
			case 1:
				f = fSub
			}
			v = append(v, f(v[d.l], v[d.r]))
		}
		return []*big.Int{v[n+2], v[n/2+2]}
	}}
}

func largeNumber(t *rapid.T, id string) largePart {
	n := largeSize(t, 600)
	s := rapid.StringOfN(rapid.RuneFrom([]rune("0123456789")), n, n, -1).Draw(t, "digits")
	k := bi(s)
	j := largeVar(t)
	return largePart{"long number", n, "", "", []string{s + "*" + largeVars[j] + "+1", largeVars[j] + "-" + s}, func(in []*big.Int) []*big.Int {
		return []*big.Int{fAdd(fMul(k, in[j]), li(1)), fSub(in[j], k)}
	}}
}

// --- control flow

func largeLoop(t *rapid.T, id string) largePart {
	n, step, from := largeSize(t, 1500), rapid.IntRange(1, 3).Draw(t, "step"), rapid.IntRange(0, 3).Draw(t, "from")
	c, s := "c"+id, "s"+id
	j := largeVar(t)
	body := fmt.Sprintf("var %s = %d\nvar %s = z\nfor(%s < %d; %s = %s + %d){\n%s = %s + %s*%s\n}\n", c, from, s, c, from+n, c, c, step, s, s, c, largeVars[j])
	return largePart{"rounds", n, "", body, []string{s, c + "*y"}, func(in []*big.Int) []*big.Int {
		v, i := modN(in[2]), from
		for ; i < from+n; i += step {
			v = fAdd(v, fMul(li(i), in[j]))
		}
		return []*big.Int{v, fMul(li(i), in[1])}
	}}
}

func largeDown(t *rapid.T, id string) largePart {
	n, to := largeSize(t, 300), rapid.IntRange(0, 3).Draw(t, "to")
	c, s := "c"+id, "s"+id
	cmp := rapid.SampledFrom([]string{">", ">=", "!="}).Draw(t, "cmp")
	body := fmt.Sprintf("var %s = %d\nvar %s = x\nfor(%s %s %d; %s = %s - 1){\n%s = %s*2 + %s\n}\n", c, to+n, s, c, cmp, to+b2i(cmp == ">="), c, c, s, s, c)
	return largePart{"rounds down", n, "", body, []string{s}, func(in []*big.Int) []*big.Int {
		v := modN(in[0])
		for i := to + n; i > to; i-- {
			v = fAdd(fMul(li(2), v), li(i))
		}
		return one(v)
	}}
}

func largePower(t *rapid.T, id string) largePart {
	n := largeSize(t, 120)
	c, s := "c"+id, "s"+id
	j := largeVar(t)
	body := fmt.Sprintf("var %s = 1\nvar %s = y\nfor(%s < %s; %s = %s*2){\n%s = %s*%s + %s\n}\n", c, s, c, new(big.Int).Lsh(li(1), uint(n)), c, c, s, s, largeVars[j], c)
	return largePart{"doubling counter", n, "", body, []string{s}, func(in []*big.Int) []*big.Int {
		v := modN(in[1])
		for i := 0; i < n; i++ {
			v = fAdd(fMul(v, in[j]), new(big.Int).Lsh(li(1), uint(i)))
		}
		return one(v)
	}}
}

func largeGrid(t *rapid.T, id string) largePart {
	n, m, l := largeSize(t, 24), largeSize(t, 24), largeSize(t, 4)
	i, j, k, s := "i"+id, "j"+id, "k"+id, "s"+id
	body := fmt.Sprintf("var %[4]s = x\nvar %[1]s = 0\nfor(%[1]s < %[5]d; %[1]s = %[1]s + 1){\nvar %[2]s = 0\nfor(%[2]s < %[6]d; %[2]s = %[2]s + 1){\nvar %[3]s = 0\nfor(%[3]s < %[7]d; %[3]s = %[3]s + 1){\nif %[1]s >= %[2]s {\n%[4]s = %[4]s + %[1]s*y + %[2]s*%[3]s\n}else{\n%[4]s = %[4]s - %[3]s*z\n}\n}\n}\n}\n", i, j, k, s, n, m, l)
	return largePart{"nested rounds", n * m * l, "", body, []string{s}, func(in []*big.Int) []*big.Int {
		v := modN(in[0])
		for i := 0; i < n; i++ {
			for j := 0; j < m; j++ {
				for k := 0; k < l; k++ {
					if i >= j {
						v = fAdd(v, fAdd(fMul(li(i), in[1]), li(j*k)))
					} else {
						v = fSub(v, fMul(li(k), in[2]))
					}
				}
			}
		}
		return one(v)
	}}
}

func largeElse(t *rapid.T, id string) largePart {
	n := largeSize(t, 60)
	at := rapid.IntRange(0, n).Draw(t, "taken")
	inLoop := rapid.IntRange(0, 2).Draw(t, "loop") == 0
	c, s := "c"+id, "s"+id
	b := ""
	for i := 0; i < n; i++ {
		b += fmt.Sprintf("if %s == %d {\n%s = %s + %d*x\n}else ", c, i, s, s, i+1)
	}
	b += fmt.Sprintf("{\n%s = %s - y\n}\n", s, s)
	if inLoop {
		b = fmt.Sprintf("for(%[1]s < %[2]d; %[1]s = %[1]s + 1){\n%[3]s}\n", c, at+2, b)
	}
	b = fmt.Sprintf("var %s = %d\nvar %s = z\n", c, at*b2i(!inLoop), s) + b
	return largePart{"alternatives", n, "", b, []string{s}, func(in []*big.Int) []*big.Int {
		v := modN(in[2])
		step := func(i int) {
			if i < n {
				v = fAdd(v, fMul(li(i+1), in[0]))
			} else {
				v = fSub(v, in[1])
			}
		}
		if inLoop {
			for i := 0; i < at+2; i++ {
				step(i)
			}
		} else {
			step(at)
		}
		return one(v)
	}}
}

func largeDeep(t *rapid.T, id string) largePart {
	n := largeSize(t, 40)
	stop := n
	if rapid.Bool().Draw(t, "stop") {
		stop = rapid.IntRange(0, n).Draw(t, "at")
	}
	s := "s" + id
	b := fmt.Sprintf("var %s = x\n", s)
	end := ""
	for i := 0; i < n; i++ {
		cond := "1 < 2"
		if i == stop {
			cond = "2 < 1"
		}
		b += fmt.Sprintf("if %s {\n%s = %s + %d*y\nvar l%s%d = %s*3\n", cond, s, s, i+1, id, i, s)
		end = fmt.Sprintf("%s = %s + l%s%d\n}else{\n%s = %s + %d\n}\n", s, s, id, i, s, s, 1000+i) + end
	}
	return largePart{"nested branches", n, "", b + end, []string{s}, func(in []*big.Int) []*big.Int {
		v := modN(in[0])
		var l []*big.Int
		for i := 0; i < n && i < stop; i++ {
			v = fAdd(v, fMul(li(i+1), in[1]))
			l = append(l, fMul(li(3), v))
		}
		if stop < n {
			v = fAdd(v, li(1000+stop))
		}
		for i := len(l) - 1; i >= 0; i-- {
			v = fAdd(v, l[i])
		}
		return one(v)
	}}
}

func largeArray(t *rapid.T, id string) largePart {
	n := largeSize(t, 120)
	a, c := "a"+id, "c"+id
	es := make([]string, n)
	for i := range es {
		es[i] = fmt.Sprintf("x+%d", i)
	}
	k := rapid.IntRange(0, n-1).Draw(t, "k")
	m := rapid.IntRange(0, n-1).Draw(t, "m")
	b := fmt.Sprintf("var %s[] = {%s}\nvar %s = 1\nfor(%s < %d; %s = %s + 1){\n%s[%s] = %s[%s - 1]*2 + %s[%s]*y\n}\n%s[%d] = z\n", a, strings.Join(es, ", "), c, c, n, c, c, a, c, a, c, a, c, a, m)
	return largePart{"array", n, "", b, []string{fmt.Sprintf("%s[%d]", a, k), fmt.Sprintf("%s[%d]", a, n-1)}, func(in []*big.Int) []*big.Int {
		v := make([]*big.Int, n)
		for i := range v {
			v[i] = fAdd(in[0], li(i))
			if i > 0 {
				v[i] = fAdd(fMul(li(2), v[i-1]), fMul(v[i], in[1]))
			}
		}
		v[m] = modN(in[2])
		return []*big.Int{v[k], v[n-1]}
	}}
}

// --- functions

func largeCalls(t *rapid.T, id string) largePart {
	n := largeSize(t, 60)
	top := fmt.Sprintf("func f%s0(p){\nreturn p*p + 1\n}\n", id)
	for i := 1; i <= n; i++ {
		d := fmt.Sprintf("func f%s%d(p){\nvar q = p + %d\nreturn f%s%d(q) - p\n}\n", id, i, i, id, i-1)
		if rapid.Bool().Draw(t, "before") {
			top = d + top
		} else {
			top += d
		}
	}
	return largePart{"chain of functions", n, top, "", []string{fmt.Sprintf("f%s%d(x)", id, n)}, func(in []*big.Int) []*big.Int {
		v, sub := modN(in[0]), new(big.Int)
		for i := n; i > 0; i-- {
			sub = fAdd(sub, v)
			v = fAdd(v, li(i))
		}
		return one(fSub(fAdd(fMul(v, v), li(1)), sub))
	}}
}

func largeRecursion(t *rapid.T, id string) largePart {
	n := largeSize(t, 100)
	j := largeVar(t)
	f := "r" + id
	top := fmt.Sprintf("func %[1]s(k, p, q){\nif k == 0 {\nreturn p\n}\nreturn %[1]s(k - 1, p*2 + q + k, q) + 1\n}\n", f)
	return largePart{"recursion", n, top, "", []string{fmt.Sprintf("%s(%d, x, %s)", f, n, largeVars[j])}, func(in []*big.Int) []*big.Int {
		v := modN(in[0])
		for k := n; k > 0; k-- {
			v = fAdd(fAdd(fMul(li(2), v), in[j]), li(k))
		}
		return one(fAdd(v, li(n)))
	}}
}

func largeParams(t *rapid.T, id string) largePart {
	n := largeSize(t, 50)
	var ps, as []string
	sum := "0"
	vs := make([]int, n)
	at := rapid.IntRange(0, n-1).Draw(t, "at")
	for i := range vs {
		vs[i] = largeVar(t)
		p := fmt.Sprintf("p%d", i)
		ps = append(ps, p)
		sum += fmt.Sprintf("+%d*%s", i+1, p)
		as = append(as, fmt.Sprintf("%s+%d", largeVars[vs[i]], i))
	}
	f := "g" + id
	top := fmt.Sprintf("func %s(%s){\nreturn (%s)*p%d\n}\n", f, strings.Join(ps, ","), sum, at)
	body, call := "", fmt.Sprintf("%s(%s)", f, strings.Join(as, ", "))
	if rapid.IntRange(0, 2).Draw(t, "steps") == 0 { // some arguments at a time
		call = ""
		for i, k := 0, 0; i < n; k++ {
			m := min(n, i+rapid.IntRange(1, 9).Draw(t, "some"))
			next := fmt.Sprintf("h%s%d", id, k)
			body += fmt.Sprintf("var %s = %s(%s)\n", next, f, strings.Join(as[i:m], ", "))
			f, i, call = next, m, next
		}
	}
	return largePart{"parameters", n, top, body, []string{call}, func(in []*big.Int) []*big.Int {
		v := new(big.Int)
		for i, j := range vs {
			v = fAdd(v, fMul(li(i+1), fAdd(in[j], li(i))))
		}
		return one(fMul(v, fAdd(in[vs[at]], li(at))))
	}}
}

func largeApply(t *rapid.T, id string) largePart {
	n := largeSize(t, 40)
	f := "u" + id
	top := fmt.Sprintf("func %s(p){\nreturn p*3 + 1\n}\n", f)
	twice := rapid.Bool().Draw(t, "square")
	if twice {
		top = fmt.Sprintf("func %s(p){\nvar q = p*p\nreturn q + 1\n}\n", f)
	}
	e := "x + y"
	for i := 0; i < n; i++ {
		e = f + "(" + e + ")"
	}
	return largePart{"nested calls", n, top, "", []string{e}, func(in []*big.Int) []*big.Int {
		v := fAdd(in[0], in[1])
		for i := 0; i < n; i++ {
			if twice {
				v = fAdd(fMul(v, v), li(1))
			} else {
				v = fAdd(fMul(v, li(3)), li(1))
			}
		}
		return one(v)
	}}
}

// largeScopes: functions in functions, every one of which sees the names around it
func largeScopes(t *rapid.T, id string) largePart {
	n := largeSize(t, 12)
	shadow := rapid.Bool().Draw(t, "shadow")
	sum := "0"
	var fun func(i int) string
	fun = func(i int) string {
		p := "p" + id
		if shadow {
			sum = p
		} else {
			p += fmt.Sprint("x", i)
			sum += fmt.Sprintf("+%d*%s", i+1, p)
		}
		s := fmt.Sprintf("func w%s%d(%s){\n", id, i, p)
		if i == n-1 {
			return s + "return " + sum + "\n}\n"
		}
		return s + fun(i+1) + fmt.Sprintf("return w%s%d(%s + 1)\n}\n", id, i+1, p)
	}
	b := fun(0)
	return largePart{"scopes", n, "", b, []string{fmt.Sprintf("w%s0(x)*y", id)}, func(in []*big.Int) []*big.Int {
		v := new(big.Int)
		for i := 0; i < n; i++ {
			p := fAdd(in[0], li(i))
			if shadow {
				v = p
			} else {
				v = fAdd(v, fMul(li(i+1), p))
			}
		}
		return one(fMul(v, in[1]))
	}}
}

func genLarge(gens ...largeGen) func(t *rapid.T) progCase {
	return func(t *rapid.T) progCase {
		var ps []largePart
		for i := 1 + b2i(rapid.IntRange(0, 3).Draw(t, "two") == 0); i > 0; i-- {
			ps = append(ps, rapid.SampledFrom(gens).Draw(t, "kind")(t, []string{"a", "b", "c"}[len(ps)]))
		}
		src, body := "", ""
		var outs []string
		c := progCase{Inputs: []string{"x", "y", "z"}}
		for _, p := range ps {
			src += p.top
			body += p.body
			for _, o := range p.outs {
				body += fmt.Sprintf("equal(%s, o[%d])\n", o, len(outs))
				outs = append(outs, o)
				c.Inputs = append(c.Inputs, fmt.Sprintf("o[%d]", len(outs)-1))
			}
			c.Feat = append(c.Feat, p.name)
			switch {
			case p.size > 100:
				c.Feat = append(c.Feat, "more than 100")
			case p.size > 20:
				c.Feat = append(c.Feat, "more than 20")
			}
		}
		main := fmt.Sprintf("func main(x,y,z,o[%d]){\n%sreturn\n}\n", len(outs), body)
		if rapid.Bool().Draw(t, "main first") {
			c.Src = main + src
		} else {
			c.Src = src + main
		}
		for i := 0; i < 2; i++ {
			in := genInputs(t, 3)
			tr := trial{In: strs(in), Delta: genNZ(t, "delta").String()}
			k := 0
			for _, p := range ps {
				v := p.eval(in)
				if v == nil {
					tr.Err = true
					v = make([]*big.Int, len(p.outs))
					for j := range v {
						v[j] = new(big.Int)
					}
				}
				for _, x := range v {
					tr.In = append(tr.In, x.String())
					tr.Chk = append(tr.Chk, 3+k)
					k++
				}
			}
			unreduce(t, tr.In)
			c.Trials = append(c.Trials, tr)
		}
		return c
	}
}

const largeRule = "more than 20 terms, rounds, alternatives, levels, elements, parameters or digits"

func runLarge(c *progCase, r *R) {
	runProgCase(c, r)
	for _, f := range c.Feat {
		r.NonTrivialIf(strings.HasPrefix(f, "more than"))
	}
}
