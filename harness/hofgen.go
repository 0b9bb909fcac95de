package main

// Typed generator of higher-order programs: closures, functions returned and passed as arguments, partial
// application with any number of arguments, captured variables that change.

import (
	"fmt"

	"pgregory.net/rapid"
)

// ty is a value (no parameters) or a function type.
type ty struct {
	ps  []*ty
	ret *ty
}

func (t *ty) String() string {
	if t.ret == nil {
		return "V"
	}
	s := "("
	for _, p := range t.ps {
		s += p.String()
	}
	return s + ">" + t.ret.String() + ")"
}
func fn(ret *ty, ps ...*ty) *ty { return &ty{ps, ret} }

var (
	tV = &ty{}
	tU = fn(tV, tV)
	tB = fn(tV, tV, tV)

	hofTypes = []*ty{
		tU, tB, fn(tV, tV, tV, tV),
		fn(tV, tU, tV), fn(tV, tU, tV, tV), fn(tV, tV, tU), fn(tV, tU, tU, tV), fn(tV, tB, tV, tV),
		fn(tU, tV), fn(tU, tU), fn(tU, tU, tU), fn(tU, tV, tV), fn(tB, tV), fn(tU, tB, tV), fn(tU, tB),
		fn(fn(tU, tV), tV), fn(tV, fn(tV, tU, tV), tV),
	}
)

type hvar struct {
	name string
	t    *ty
	set  bool // may be assigned
}

type hofgen struct {
	t   *rapid.T
	ctr int
	fr  [][]hvar
}

func (g *hofgen) n(k int, l string) int {
	if k <= 1 {
		return 0
	}
	return rapid.IntRange(0, k-1).Draw(g.t, l)
}
func (g *hofgen) fresh() string {
	g.ctr++
	return fmt.Sprintf("%s%d", []string{"f", "x", "g", "k"}[g.n(4, "stem")], g.ctr)
}
func (g *hofgen) visible(ok func(hvar) bool) (out []hvar) {
	for i := len(g.fr) - 1; i >= 0; i-- {
		for j := len(g.fr[i]) - 1; j >= 0; j-- {
			if ok(g.fr[i][j]) {
				out = append(out, g.fr[i][j])
			}
		}
	}
	return
}
func (g *hofgen) declare(v hvar) { g.fr[len(g.fr)-1] = append(g.fr[len(g.fr)-1], v) }

// ways a visible function yields something of type t: all arguments, or a prefix of them
func (g *hofgen) yields(f *ty, t *ty) (prefix int, ok bool) {
	if f.ret == nil {
		return 0, false
	}
	if f.ret.String() == t.String() {
		return len(f.ps), true
	}
	if t.ret == nil || f.ret.String() != t.ret.String() || len(f.ps) <= len(t.ps) {
		return 0, false
	}
	k := len(f.ps) - len(t.ps)
	for i, p := range t.ps {
		if p.String() != f.ps[k+i].String() {
			return 0, false
		}
	}
	return k, true
}

// expr returns nil when nothing visible gives a t within depth d.
func (g *hofgen) expr(t *ty, d int) *ex {
	var ways []func() *ex
	ts := t.String()
	for _, v := range g.visible(func(v hvar) bool { return v.t.String() == ts }) {
		v := v
		ways = append(ways, func() *ex { return vr(v.name) })
	}
	if t.ret == nil {
		ways = append(ways, func() *ex { return numi(g.n(10, "num")) })
		if d > 0 {
			for _, op := range []string{"+", "-", "*"} {
				op := op
				ways = append(ways, func() *ex { return bin(op, g.expr(tV, d-1), g.expr(tV, d-1)) })
			}
		}
	}
	nv := len(ways)
	if d > 0 {
		for _, f := range g.visible(func(v hvar) bool { _, ok := g.yields(v.t, t); return ok }) {
			f := f
			k, _ := g.yields(f.t, t)
			w := func() *ex {
				var as []*ex
				for _, p := range f.t.ps[:k] {
					a := g.expr(p, d-1)
					if a == nil {
						return nil
					}
					as = append(as, a)
				}
				return call(f.name, as...)
			}
			ways = append(ways, w, w)
		}
	}
	if len(ways) == 0 {
		return nil
	}
	i := g.n(len(ways), "way")
	// small case numbers keep shrinking towards plain variables
	if e := ways[i](); e != nil {
		return e
	}
	if nv > 0 {
		return ways[g.n(nv, "plainway")]()
	}
	return nil
}

// function declares a function of type t; d bounds the nesting.
func (g *hofgen) function(t *ty, d int) *st {
	name := g.fresh()
	s := &st{k: "func", n: name, asVar: g.n(2, "asvar") == 1}
	g.fr = append(g.fr, nil)
	for _, p := range t.ps {
		n := g.fresh()
		s.params = append(s.params, n)
		g.declare(hvar{name: n, t: p})
	}
	if g.n(3, "local") == 0 {
		n := g.fresh()
		e := g.expr(tV, 1)
		s.body = append(s.body, &st{k: "var", n: n, e: e})
		g.declare(hvar{n, tV, true})
		if g.n(2, "setlocal") == 0 {
			s.body = append(s.body, &st{k: "set", n: n, e: g.expr(tV, 1)})
		}
	}
	if g.n(4, "stateful") == 0 {
		// changes a captured variable
		if vs := g.visible(func(v hvar) bool { return v.set && v.t.ret == nil }); len(vs) > 0 {
			v := vs[g.n(len(vs), "captured")]
			s.body = append(s.body, &st{k: "set", n: v.name, e: g.expr(tV, 1)})
		}
	}
	if t.ret.ret == nil {
		if d > 0 && g.n(5, "helper") == 0 {
			h := g.function([]*ty{tU, tB}[g.n(2, "helpertype")], 0)
			s.body = append(s.body, h)
		}
		s.body = append(s.body, &st{k: "ret", e: g.expr(tV, 2)})
	} else {
		var e *ex
		if g.n(4, "direct") == 0 {
			e = g.expr(t.ret, 2)
		}
		if e == nil {
			in := g.function(t.ret, d-1)
			s.body = append(s.body, in)
			if g.n(3, "tail") == 0 {
				e = g.expr(t.ret, 1)
			} else {
				e = vr(in.n)
			}
		}
		s.body = append(s.body, &st{k: "ret", e: e})
	}
	g.fr = g.fr[:len(g.fr)-1]
	g.declare(hvar{name: name, t: t})
	return s
}

func (g *hofgen) fnType() *ty { return hofTypes[g.n(len(hofTypes), "type")] }

func (g *hofgen) program() *program {
	p := &program{main: &st{}}
	g.fr = [][]hvar{nil}
	for i := g.n(4, "ntop"); i > 0; i-- {
		s := g.function(g.fnType(), 2)
		s.asVar = false
		p.top = append(p.top, s)
	}
	p.mainPos = g.n(len(p.top)+1, "mainpos")
	g.fr = append(g.fr, nil)
	for i := 1 + g.n(2, "ninputs"); i > 0; i-- {
		n := g.fresh()
		p.main.params = append(p.main.params, n)
		g.declare(hvar{n, tV, true})
	}
	nout := 2
	outs := g.fresh()
	p.main.params = append(p.main.params, fmt.Sprintf("%s[%d]", outs, nout))
	p.inputs = flatten(p.main.params)
	var fvars []hvar
	for i := 2 + g.n(6, "nstmts"); i > 0; i-- {
		switch g.n(6, "stmt") {
		case 0:
			p.main.body = append(p.main.body, g.function(g.fnType(), 2))
		case 1:
			e := g.expr(tV, 3)
			n := g.fresh()
			p.main.body = append(p.main.body, &st{k: "var", n: n, e: e})
			g.declare(hvar{n, tV, true})
		case 2:
			if vs := g.visible(func(v hvar) bool { return v.set && v.t.ret == nil }); len(vs) > 0 {
				v := vs[g.n(len(vs), "assign")]
				p.main.body = append(p.main.body, &st{k: "set", n: v.name, e: g.expr(tV, 2)})
			}
		case 3:
			if len(fvars) > 0 {
				v := fvars[g.n(len(fvars), "refn")]
				if e := g.expr(v.t, 2); e != nil {
					p.main.body = append(p.main.body, &st{k: "set", n: v.name, e: e})
				}
			}
		default:
			t := g.fnType()
			e := g.expr(t, 3)
			if e == nil {
				p.main.body = append(p.main.body, g.function(t, 2))
				continue
			}
			n := g.fresh()
			p.main.body = append(p.main.body, &st{k: "var", n: n, e: e})
			v := hvar{name: n, t: t}
			fvars = append(fvars, v)
			g.declare(v)
		}
	}
	for o := 0; o < nout; o++ {
		p.main.body = append(p.main.body, &st{k: "obs", e: g.expr(tV, 3), e2: idx(outs, numi(o))})
	}
	return p
}

func genHof(t *rapid.T) (c progCase) {
	for attempt := 0; ; attempt++ {
		g := &hofgen{t: t}
		prog := g.program()
		if attempt > 8 {
			prog = (&pgen{t: t, p: profile{depth: 1, stmts: 1, outs: 1}}).program()
		}
		c = progCase{Src: prog.render(plain()), Inputs: prog.inputs}
		feats := map[string]int{}
		ok := true
		for i := 0; i < 2 && ok; i++ {
			var tr trial
			tr, ok = prog.trial(genInputs(t, len(prog.inputs)), feats)
			tr.Delta = genNZ(t, "delta").String()
			c.Trials = append(c.Trials, tr)
		}
		if !ok {
			continue
		}
		c.Feat = sortedKeys(feats)
		return
	}
}

func runHofCase(c *progCase, r *R) {
	runProgCase(c, r)
	r.nontrivial = r.labels["partial application"] || r.labels["function as argument"]
}
