package main

// The circuit language: syntax trees, rendering to source text and a reference interpreter. Written from the README,
// not from the compiler: expressions have Go's precedence and associativity, functions are closures over their
// defining scope, variables are shared by reference, arguments by value, blocks open scopes.

import (
	"fmt"
	"math/big"
	"strings"
)

type ex struct {
	op string // num var idx call + - * /
	n  string
	a  []*ex
}

type branch struct {
	cmp  string // "" in the final else
	l, r *ex
	body []*st
}

type st struct {
	k      string // var set arr setidx func ret call for if equal split add
	n      string
	e, e2  *ex
	es     []*ex
	params []string // declaration form, such as x or b[2]
	body   []*st
	alts   []branch
	asVar  bool // var f = func(..){..}
}

func num(n string) *ex            { return &ex{op: "num", n: n} }
func numi(n int) *ex              { return num(fmt.Sprint(n)) }
func vr(n string) *ex             { return &ex{op: "var", n: n} }
func bin(op string, l, r *ex) *ex { return &ex{op: op, a: []*ex{l, r}} }
func call(f string, a ...*ex) *ex { return &ex{op: "call", n: f, a: a} }
func idx(arr string, i ...*ex) *ex {
	return &ex{op: "idx", n: arr, a: i}
}

// ---- rendering ----

// layout decides the free choices of the text; every method may be random.
type layout struct {
	paren func() int    // number of redundant brackets around an expression
	sp    func() string // between tokens
	nl    func() string // after a statement
	name  func(string) string
	num   func(string) string
}

func plain() *layout {
	return &layout{paren: func() int { return 0 }, sp: func() string { return " " }, nl: func() string { return "\n" }, name: func(s string) string { return s }, num: func(s string) string { return s }}
}

func prec(op string) int {
	switch op {
	case "+", "-":
		return 1
	case "*", "/":
		return 2
	}
	return 3
}

func (l *layout) expr(e *ex) string {
	s := l.expr0(e)
	for n := l.paren(); n > 0; n-- {
		s = "(" + l.sp() + s + l.sp() + ")"
	}
	return s
}

func (l *layout) list(es []*ex) string {
	var p []string
	for _, e := range es {
		p = append(p, l.sp()+l.expr(e)+l.sp())
	}
	return strings.Join(p, ",")
}

func (l *layout) expr0(e *ex) string {
	switch e.op {
	case "num":
		return l.num(e.n)
	case "var":
		return l.name(e.n)
	case "idx":
		s := l.name(e.n)
		for _, i := range e.a {
			s += "[" + l.sp() + l.expr(i) + l.sp() + "]"
		}
		return s
	case "call":
		return l.name(e.n) + "(" + l.list(e.a) + ")"
	}
	left, right := l.expr(e.a[0]), l.expr(e.a[1])
	if prec(e.a[0].op) < prec(e.op) {
		left = "(" + left + ")"
	}
	if prec(e.a[1].op) <= prec(e.op) {
		right = "(" + right + ")"
	}
	return left + l.sp() + e.op + l.sp() + right
}

func (l *layout) params(ps []string) string {
	var out []string
	for _, p := range ps {
		n, dims := p, ""
		if i := strings.IndexByte(p, '['); i >= 0 {
			n = p[:i]
			for _, d := range strings.Split(strings.TrimSuffix(p[i+1:], "]"), "][") {
				dims += "[" + l.num(d) + "]"
			}
		}
		out = append(out, l.sp()+l.name(n)+dims+l.sp())
	}
	return strings.Join(out, ",")
}

func (l *layout) block(b []*st) string {
	s := "{" + l.nl()
	for _, x := range b {
		s += l.stmt(x)
	}
	return s + "}"
}

func (l *layout) stmt(s *st) string {
	sp := l.sp
	switch s.k {
	case "var":
		return "var " + l.name(s.n) + sp() + "=" + sp() + l.expr(s.e) + l.nl()
	case "set":
		return l.name(s.n) + sp() + "=" + sp() + l.expr(s.e) + l.nl()
	case "arr":
		return "var " + l.name(s.n) + "[]" + sp() + "=" + sp() + "{" + l.list(s.es) + "}" + l.nl()
	case "setidx":
		return l.expr0(s.e2) + sp() + "=" + sp() + l.expr(s.e) + l.nl()
	case "func":
		if s.asVar {
			return "var " + l.name(s.n) + sp() + "=" + sp() + "func(" + l.params(s.params) + ")" + l.block(s.body) + l.nl()
		}
		return "func " + l.name(s.n) + "(" + l.params(s.params) + ")" + l.block(s.body) + l.nl()
	case "ret":
		if s.e == nil {
			return "return" + l.nl()
		}
		return "return " + l.expr(s.e) + l.nl()
	case "call":
		return l.expr0(s.e) + l.nl()
	case "break":
		return "BREAK(" + l.list(s.es) + ")" + l.nl()
	case "equal":
		return "equal(" + l.list(s.es) + ")" + l.nl()
	case "obs":
		l1, r1 := s.e, s.e2
		switch s.n {
		case "swap":
			l1, r1 = r1, l1
		case "diff":
			l1, r1 = bin("-", l1, r1), num("0")
		case "shift":
			l1, r1 = bin("+", l1, s.es[0]), bin("+", r1, s.es[0])
		case "scale":
			l1, r1 = bin("*", s.es[0], l1), bin("*", r1, s.es[0])
		}
		return "equal(" + l.list([]*ex{l1, r1}) + ")" + l.nl()
	case "split":
		return "SPLIT(" + l.expr(s.e) + ")" + l.nl()
	case "for":
		return "for(" + sp() + l.cond(s.alts[0]) + sp() + ";" + sp() + l.name(s.n) + sp() + "=" + sp() + l.expr(s.e) + sp() + ")" + l.block(s.body) + l.nl()
	case "if":
		o := ""
		for i, b := range s.alts {
			if i > 0 {
				o += "else "
			}
			if b.cmp != "" {
				c := l.cond(b)
				if l.paren() == 1 {
					c = "(" + c + ")"
				}
				o += "if " + c
			}
			o += l.block(b.body)
		}
		return o + l.nl()
	}
	panic("render " + s.k)
}

func (l *layout) cond(b branch) string {
	return l.expr(b.l) + l.sp() + b.cmp + l.sp() + l.expr(b.r)
}

// program is a list of top level declarations, main among them.
type program struct {
	main    *st      // params and body
	publics []*ex    // names of public inputs; nil: no public block
	top     []*st    // other declarations
	mainPos int      // how many of top come before main
	inputs  []string // flattened
	maxMuls int
}

func (p *program) render(l *layout) string {
	s := ""
	for i, t := range p.top {
		if i == p.mainPos {
			s += p.renderMain(l)
		}
		s += l.stmt(t)
	}
	if p.mainPos >= len(p.top) {
		s += p.renderMain(l)
	}
	return s
}
func (p *program) renderMain(l *layout) string {
	s := "func main(" + l.params(p.main.params) + "){" + l.nl()
	if p.publics != nil {
		s += "public{" + l.list(p.publics) + "}" + l.nl()
	}
	for _, x := range p.main.body {
		s += l.stmt(x)
	}
	return s + "}" + l.nl()
}

func flatten(ps []string) (out []string) {
	for _, p := range ps {
		i := strings.IndexByte(p, '[')
		if i < 0 {
			out = append(out, p)
			continue
		}
		var dims []int
		for _, d := range strings.Split(strings.TrimSuffix(p[i+1:], "]"), "][") {
			k := 0
			fmt.Sscan(d, &k)
			dims = append(dims, k)
		}
		names := []string{p[:i]}
		for _, d := range dims {
			var nn []string
			for _, n := range names {
				for j := 0; j < d; j++ {
					nn = append(nn, fmt.Sprintf("%s[%d]", n, j))
				}
			}
			names = nn
		}
		out = append(out, names...)
	}
	return
}

// ---- interpreter ----

type closure struct {
	name   string
	params []string
	pre    []val
	body   []*st
	env    *env
}
type val struct {
	n      *big.Int
	f      *closure
	static bool
	origin int // 1 + position among the inputs, for a value that is an unmodified input
}
type env struct {
	vars map[string]*val
	up   *env
}

func (e *env) find(n string) *val {
	for ; e != nil; e = e.up {
		if v, ok := e.vars[n]; ok {
			return v
		}
	}
	return nil
}
func newEnv(up *env) *env { return &env{map[string]*val{}, up} }

type tooCostly struct{}
type invalidProg struct{ s string }

type interp struct {
	steps, muls int
	limit       int
	equal       func(l, r *big.Int)       // called for every equality assertion executed
	obs         func(out int, v *big.Int) // an assertion that an output (a position among the inputs) has a value
	feat        map[string]int
	divZ        bool // a division by zero happened
	nonStatic   bool // a condition or an index was not static
}

func (in *interp) saw(s string) {
	if in.feat != nil {
		in.feat[s]++
	}
}

func (in *interp) eval(e *ex, s *env) val {
	in.steps++
	if in.steps > in.limit {
		panic(tooCostly{})
	}
	switch e.op {
	case "num":
		return val{n: modN(bi(e.n)), static: true}
	case "var":
		v := s.find(e.n)
		if v == nil {
			panic(invalidProg{"unknown " + e.n})
		}
		return *v
	case "idx":
		v := s.find(in.elem(e, s))
		if v == nil {
			panic(invalidProg{"index out of range " + e.n})
		}
		return *v
	case "call":
		switch e.n {
		case "addGateConstraint":
			l, r := in.eval(e.a[0], s), in.eval(e.a[1], s)
			in.muls++
			return val{n: fAdd(l.n, r.n)}
		case "scalarBaseMultiply":
			v := in.eval(e.a[0], s)
			in.muls++
			return val{n: refScalarBaseX(v.n)}
		}
		f := s.find(e.n)
		if f == nil || f.f == nil {
			panic(invalidProg{"no function " + e.n})
		}
		args := append([]val{}, f.f.pre...)
		for _, a := range e.a {
			args = append(args, in.eval(a, s))
		}
		return in.apply(f.f, args)
	}
	l := in.eval(e.a[0], s)
	r := in.eval(e.a[1], s)
	if l.n == nil || r.n == nil {
		panic(invalidProg{"arithmetic on a function"})
	}
	st := l.static && r.static
	switch e.op {
	case "+":
		return val{n: fAdd(l.n, r.n), static: st}
	case "-":
		return val{n: fSub(l.n, r.n), static: st}
	case "*":
		in.muls++
		return val{n: fMul(l.n, r.n), static: st}
	case "/":
		in.muls++
		if r.n.Sign() == 0 {
			// the run has no meaning from here on; it continues to find out whether the program is static
			in.divZ = true
			return val{n: new(big.Int), static: st}
		}
		return val{n: fDiv(l.n, r.n), static: st}
	}
	panic("op " + e.op)
}

func (in *interp) elem(e *ex, s *env) string {
	n := e.n
	for _, i := range e.a {
		v := in.eval(i, s)
		if !v.static {
			in.nonStatic = true
		}
		n += fmt.Sprintf("[%v]", v.n)
	}
	return n
}

func (in *interp) apply(c *closure, args []val) val {
	names := flatten(c.params)
	if len(args) > len(names) {
		panic(invalidProg{"too many arguments"})
	}
	if len(args) < len(names) {
		in.saw("partial application")
		return val{f: &closure{c.name, c.params, args, c.body, c.env}}
	}
	s := newEnv(c.env)
	for i, n := range names {
		v := args[i]
		s.vars[n] = &v
		if v.f != nil {
			in.saw("function as argument")
		}
	}
	in.saw("call")
	v, _ := in.block(c.body, s)
	return v
}

func (in *interp) holds(b branch, s *env) bool {
	l, r := in.eval(b.l, s), in.eval(b.r, s)
	if !l.static || !r.static {
		in.nonStatic = true
	}
	c := l.n.Cmp(r.n)
	switch b.cmp {
	case "==":
		return c == 0
	case "!=":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	}
	panic("cmp " + b.cmp)
}

func (in *interp) assign(n string, v val, s *env) {
	c := s.find(n)
	if c == nil {
		panic(invalidProg{"assignment to unknown " + n})
	}
	*c = v
}

func (in *interp) block(b []*st, s *env) (ret val, returned bool) {
	for _, x := range b {
		in.steps++
		if in.steps > in.limit {
			panic(tooCostly{})
		}
		switch x.k {
		case "var":
			v := in.eval(x.e, s)
			s.vars[x.n] = &v
		case "set":
			in.assign(x.n, in.eval(x.e, s), s)
		case "arr":
			for i, e := range x.es {
				v := in.eval(e, s)
				s.vars[fmt.Sprintf("%s[%d]", x.n, i)] = &v
			}
		case "setidx":
			n := in.elem(x.e2, s)
			in.assign(n, in.eval(x.e, s), s)
			in.saw("array write")
		case "func":
			s.vars[x.n] = &val{f: &closure{x.n, x.params, nil, x.body, s}}
		case "ret":
			if x.e == nil {
				return val{n: big.NewInt(1), static: true}, true
			}
			return in.eval(x.e, s), true
		case "call":
			in.eval(x.e, s)
		case "break":
			for _, e := range x.es {
				in.eval(e, s)
			}
			in.saw("break")
		case "equal":
			l, r := in.eval(x.es[0], s), in.eval(x.es[1], s)
			in.saw("equal")
			in.equal(l.n, r.n)
		case "obs":
			v := in.eval(x.e, s)
			in.saw("observation")
			o := in.eval(x.e2, s)
			if o.origin == 0 {
				panic(invalidProg{"observation into a computed value"})
			}
			in.obs(o.origin-1, v.n)
		case "split":
			v := in.eval(x.e, s)
			base := x.e.n
			if x.e.op == "idx" {
				base = in.elem(x.e, s)
			}
			sc := s
			for ; sc != nil; sc = sc.up {
				if _, ok := sc.vars[base]; ok {
					break
				}
			}
			for i := 0; i < refN.BitLen(); i++ {
				sc.vars[fmt.Sprintf("%s[%d]", base, i)] = &val{n: big.NewInt(int64(v.n.Bit(i)))}
			}
			in.muls += 20
			in.saw("split")
		case "for":
			for in.holds(x.alts[0], s) {
				in.saw("loop iteration")
				if v, r := in.block(x.body, newEnv(s)); r {
					in.saw("return from loop")
					return v, true
				}
				in.assign(x.n, in.eval(x.e, s), s)
			}
		case "if":
			for i, a := range x.alts {
				if a.cmp == "" || in.holds(a, s) {
					in.saw("branch")
					if i > 0 {
						in.saw("else branch")
					} else if len(x.alts) > 1 {
						in.saw("first of several branches")
					}
					if v, r := in.block(a.body, newEnv(s)); r {
						in.saw("return from branch")
						return v, true
					}
					break
				}
			}
		default:
			panic("stmt " + x.k)
		}
	}
	return val{}, false
}

type outcome struct {
	divZero bool
	costly  bool
	invalid string
	ret     *val
}

// run interprets the program on the inputs (in the order of p.inputs).
func (p *program) run(in *interp, inputs []*big.Int) (o outcome) {
	defer func() {
		o.divZero = in.divZ
		switch e := recover().(type) {
		case nil:
		case tooCostly:
			o.costly = true
		case invalidProg:
			o.invalid = e.s
		default:
			panic(e)
		}
	}()
	g := newEnv(nil)
	for _, t := range p.top {
		in.block([]*st{t}, g)
	}
	s := newEnv(g)
	for i, n := range p.inputs {
		s.vars[n] = &val{n: modN(inputs[i]), origin: i + 1}
	}
	if v, r := in.block(p.main.body, s); r {
		o.ret = &v
	}
	return
}
