package main

// Generator of well-formed programs with known results.

import (
	"fmt"
	"math/big"
	"strings"

	"pgregory.net/rapid"
)

type gsig struct {
	params []string // v s f A<k>, o: an output the function asserts something about
	ret    string   // v f n
}

func (s *gsig) hasOut() bool {
	for _, p := range s.params {
		if p == "o" {
			return true
		}
	}
	return false
}

type gvar struct {
	name string
	kind byte // v dynamic, p pure (read only), s static, c loop counter (static, read only), a array, q array of static values, B bits, f function, o output
	size int
	max  int
	sig  *gsig
}
type gframe struct {
	vars []gvar
	fn   bool // function boundary
}

type profile struct {
	depth     int
	stmts     int
	div       bool
	bigNum    bool
	bigStatic bool // static values of several words
	funcs     bool
	hof       bool
	ctrl      bool
	arrays    bool
	equals    bool // internal equalities between equal expressions
	shadow    bool
	ext       bool // scalarBaseMultiply
	extHeavy  bool
	bits      bool // SPLIT and bit access
	outs      int
	maxMuls   int
}

type pgen struct {
	t      *rapid.T
	p      profile
	fr     []*gframe
	ctr    int
	names  []string
	used   map[string]bool
	outs   string
	nout   int
	nextO  int
	inMain bool
	loops  int
	fdepth int
	nsplit int
	prog   *program
}

func (g *pgen) n(k int, label string) int {
	if k <= 1 {
		return 0
	}
	return rapid.IntRange(0, k-1).Draw(g.t, label)
}
func (g *pgen) chance(pct int, label string) bool { return g.n(100, label) < pct }

var nameStems = []string{"x", "y", "val", "A", "tmp_", "Zed", "k", "prime", "i_j", "returnV", "iff", "forX", "varia", "ret", "funcy", "o"}

func (g *pgen) fresh() string {
	if g.used == nil {
		g.used = map[string]bool{}
	}
	n := ""
	if len(g.names) > 0 && (g.chance(20, "extend") || g.p.bits && g.chance(30, "extendbits")) {
		// an earlier name, continued
		n = g.names[g.n(len(g.names), "extended")] + []string{"1", "12", "0", "2", "_", "x", "11"}[g.n(7, "suffix")]
	}
	if n == "" || g.used[n] || len(n) > 40 {
		for {
			g.ctr++
			if n = fmt.Sprintf("%s%d", nameStems[g.n(len(nameStems), "stem")], g.ctr); !g.used[n] {
				break
			}
		}
	}
	g.used[n] = true
	g.names = append(g.names, n)
	return n
}
func (g *pgen) push(fn bool) { g.fr = append(g.fr, &gframe{fn: fn}) }
func (g *pgen) pop()         { g.fr = g.fr[:len(g.fr)-1] }
func (g *pgen) declare(v gvar) {
	f := g.fr[len(g.fr)-1]
	f.vars = append(f.vars, v)
}

// visible lists the variables a reference may name, innermost first.
func (g *pgen) visible(ok func(gvar) bool) (out []gvar) {
	seen := map[string]bool{}
	for i := len(g.fr) - 1; i >= 0; i-- {
		for j := len(g.fr[i].vars) - 1; j >= 0; j-- {
			v := g.fr[i].vars[j]
			key := v.name
			if v.kind == 'B' {
				key += "[]" // the bits of x and x itself
			}
			if seen[key] {
				continue
			}
			seen[key] = true
			if ok(v) {
				out = append(out, v)
			}
		}
	}
	return
}
func (g *pgen) kind(k string) []gvar {
	return g.visible(func(v gvar) bool { return strings.IndexByte(k, v.kind) >= 0 })
}
func (g *pgen) funcsWith(ret string) []gvar {
	outs := g.inMain && g.loops == 0 && g.nextO < g.nout
	return g.visible(func(v gvar) bool { return v.kind == 'f' && v.sig.ret == ret && (outs || !v.sig.hasOut()) })
}
func pickv(g *pgen, vs []gvar) gvar {
	// recent variables are more interesting
	if len(vs) > 3 && g.chance(50, "recent") {
		vs = vs[:3]
	}
	return vs[g.n(len(vs), "pick")]
}

func (g *pgen) number() *ex {
	k := g.n(20, "numkind")
	switch {
	case k < 13 || !g.p.bigNum:
		return numi(g.n(10, "num"))
	case k < 15:
		return num(fmt.Sprint(rapid.Uint64().Draw(g.t, "big")))
	case k < 17:
		return num(new(big.Int).Sub(refN, big.NewInt(int64(1+g.n(5, "near")))).String())
	case k < 18:
		return num("0" + fmt.Sprint(g.n(100, "zeros")))
	case k < 19:
		return num(new(big.Int).Add(refN, big.NewInt(int64(g.n(5, "over")))).String())
	default:
		return num(new(big.Int).Lsh(big.NewInt(1), uint(100+g.n(200, "pow"))).String())
	}
}

// static expression
func (g *pgen) static(d int) *ex {
	vs := g.kind("sc")
	as := g.kind("q")
	k := g.n(10, "static")
	switch {
	case d > 0 && k < 4:
		return bin([]string{"+", "-", "*", "+"}[g.n(4, "sop")], g.static(d-1), g.static(d-1))
	case k < 7 && len(vs) > 0:
		return vr(pickv(g, vs).name)
	case k < 8 && len(as) > 0:
		a := pickv(g, as)
		return idx(a.name, g.index(a.size))
	default:
		if g.p.bigStatic && g.chance(15, "bigstatic") {
			return num(g.wideStatic().String())
		}
		return numi(g.n(6, "snum"))
	}
}

// wideStatic: a number of several words, often with small low words.
func (g *pgen) wideStatic() *big.Int {
	v := big.NewInt(int64(g.n(5, "wlow")))
	switch g.n(8, "wide") {
	case 0:
		return v.Sub(refN, v.Add(v, big.NewInt(1)))
	case 1:
		return v.Add(v, new(big.Int).Rsh(refN, 1))
	}
	return v.Add(v, new(big.Int).Lsh(big.NewInt(int64(1+g.n(3, "whigh"))), uint([]int{64, 32, 63, 128, 31, 62}[g.n(6, "wpos")])))
}

// index: a static expression with a value in [0,size)
func (g *pgen) index(size int) *ex {
	cs := g.visible(func(v gvar) bool { return v.kind == 'c' && v.max < size })
	if len(cs) > 0 && g.chance(70, "idxvar") {
		c := pickv(g, cs)
		switch g.n(4, "idxform") {
		case 0:
			if c.max+1 < size {
				return bin("+", vr(c.name), numi(g.n(size-c.max, "idxadd")))
			}
		case 1:
			return bin("-", numi(size-1), vr(c.name))
		}
		return vr(c.name)
	}
	i := g.n(size, "idx")
	if g.chance(25, "idxexpr") {
		switch g.n(3, "idxarith") {
		case 0:
			return bin("-", bin("*", numi(2), numi(i)), numi(i))
		case 1:
			return bin("-", numi(i+3), numi(3))
		default:
			return bin("+", numi(0), numi(i))
		}
	}
	return numi(i)
}

func (g *pgen) leaf() *ex {
	vs := g.kind("vpsc")
	as := g.kind("aq")
	if bs := g.kind("B"); len(bs) > 0 && g.chance(35, "bit") {
		b := pickv(g, bs)
		return idx(b.name, g.index(b.size))
	}
	k := g.n(12, "leaf")
	if k < 8 && len(vs) > 0 {
		return vr(pickv(g, vs).name)
	}
	if k < 10 && len(as) > 0 {
		a := pickv(g, as)
		return idx(a.name, g.index(a.size))
	}
	if k < 11 && len(vs) > 0 {
		return vr(vs[len(vs)-1].name)
	}
	return g.number()
}

func (g *pgen) expr(d int) *ex {
	if d <= 0 {
		return g.leaf()
	}
	k := g.n(100, "expr")
	if g.p.extHeavy && g.chance(12, "heavy") {
		k = 71
	}
	switch {
	case k < 18:
		return bin("+", g.expr(d-1), g.expr(d-1))
	case k < 36:
		return bin("-", g.expr(d-1), g.expr(d-1))
	case k < 58:
		return bin("*", g.expr(d-1), g.expr(d-1))
	case k < 66:
		if g.p.div {
			r := g.expr(d - 1)
			if r.op == "num" && modN(bi(r.n)).Sign() == 0 && !g.chance(10, "divzero") {
				r = numi(7)
			}
			return bin("/", g.expr(d-1), r)
		}
		return g.leaf()
	case k < 70:
		return call("addGateConstraint", g.expr(d-1), g.expr(d-1))
	case k < 73:
		if g.p.ext {
			return call("scalarBaseMultiply", g.expr(d-1))
		}
		return g.leaf()
	case k < 90:
		fs := g.funcsWith("v")
		if len(fs) > 0 && g.p.funcs {
			return g.call(pickv(g, fs), d-1)
		}
		return g.leaf()
	default:
		return g.leaf()
	}
}

func (g *pgen) call(f gvar, d int) *ex {
	var as []*ex
	for _, p := range f.sig.params {
		as = append(as, g.arg(p, d)...)
	}
	return call(f.name, as...)
}

func (g *pgen) arg(p string, d int) []*ex {
	switch p[0] {
	case 'v':
		return []*ex{g.expr(min(d, 2))}
	case 's':
		return []*ex{numi(g.n(4, "sarg"))}
	case 'f':
		return []*ex{g.fref(1)}
	case 'o':
		// the last output may be used more than once: two assertions about it
		o := min(g.nextO, g.nout-1)
		g.nextO++
		return []*ex{idx(g.outs, numi(o))}
	case 'A':
		k := int(p[1] - '0')
		arrs := g.visible(func(v gvar) bool { return (v.kind == 'a' || v.kind == 'q') && v.size >= k })
		var out []*ex
		if len(arrs) > 0 && g.chance(60, "passarray") {
			a := pickv(g, arrs)
			for i := 0; i < k; i++ {
				out = append(out, idx(a.name, numi(i)))
			}
			return out
		}
		for i := 0; i < k; i++ {
			out = append(out, g.expr(min(d, 1)))
		}
		return out
	}
	panic(p)
}

func isUnary(s *gsig) bool { return len(s.params) == 1 && s.params[0] == "v" && s.ret == "v" }

// canRef tells whether a function of one value can be named.
func (g *pgen) canRef() bool { return len(g.refs()) > 0 }
func (g *pgen) refs() []gvar {
	return g.visible(func(v gvar) bool {
		if v.kind != 'f' {
			return false
		}
		if isUnary(v.sig) {
			return true
		}
		ps := v.sig.params
		if v.sig.hasOut() {
			return false
		}
		// partially applied to everything but a last value
		return v.sig.ret == "v" && len(ps) >= 2 && ps[len(ps)-1] == "v" || v.sig.ret == "f"
	})
}

// fref: an expression denoting a function of one value
func (g *pgen) fref(d int) *ex {
	rs := g.refs()
	if len(rs) == 0 {
		panic("no function to refer to")
	}
	f := pickv(g, rs)
	if isUnary(f.sig) {
		return vr(f.name)
	}
	ps := f.sig.params
	if f.sig.ret == "v" {
		ps = ps[:len(ps)-1]
	}
	var as []*ex
	for _, p := range ps {
		if p == "f" {
			// avoid unbounded nesting
			var un []gvar
			for _, r := range rs {
				if isUnary(r.sig) {
					un = append(un, r)
				}
			}
			as = append(as, vr(un[g.n(len(un), "unary")].name))
			continue
		}
		as = append(as, g.arg(p, d)...)
	}
	return call(f.name, as...)
}

func (g *pgen) hasUnary() bool {
	return len(g.visible(func(v gvar) bool { return v.kind == 'f' && isUnary(v.sig) })) > 0
}

// ---- statements ----

func (g *pgen) obs() *st {
	if g.nextO >= g.nout {
		return nil
	}
	o := g.nextO
	g.nextO++
	return g.obsOf(idx(g.outs, numi(o)))
}

func (g *pgen) obsOf(o *ex) *st {
	s := &st{k: "obs", e: g.expr(g.p.depth), e2: o}
	switch g.n(9, "obsform") {
	case 0, 1:
		s.n = "swap"
	case 2:
		s.n = "diff"
	case 3:
		s.n = "shift"
		s.es = []*ex{g.leaf()}
	case 4:
		s.n = "scale"
		s.es = []*ex{numi(1 + g.n(9, "scale"))}
	}
	return s
}

func (g *pgen) block(n int, value bool) (out []*st) {
	for i := 0; i < n; i++ {
		if s := g.stmt(); s != nil {
			out = append(out, s...)
		}
	}
	return
}

func (g *pgen) stmt() []*st {
	k := g.n(100, "stmt")
	p := g.p
	switch {
	case k < 22:
		e := g.expr(p.depth)
		n := g.fresh()
		g.declare(gvar{name: n, kind: 'v'})
		return []*st{{k: "var", n: n, e: e}}
	case k < 38:
		vs := g.kind("v")
		if len(vs) == 0 {
			return nil
		}
		v := pickv(g, vs)
		return []*st{{k: "set", n: v.name, e: g.expr(p.depth)}}
	case k < 43:
		if !p.ctrl {
			return nil
		}
		if vs := g.kind("s"); len(vs) > 0 && g.chance(40, "setstatic") {
			v := pickv(g, vs)
			return []*st{{k: "set", n: v.name, e: g.static(2)}}
		}
		e := g.static(1)
		n := g.fresh()
		g.declare(gvar{name: n, kind: 's'})
		return []*st{{k: "var", n: n, e: e}}
	case k < 55:
		if !p.arrays {
			return nil
		}
		if as := g.kind("a"); len(as) > 0 && g.chance(60, "arrwrite") {
			a := pickv(g, as)
			return []*st{{k: "setidx", e2: idx(a.name, g.index(a.size)), e: g.expr(p.depth - 1)}}
		}
		static := g.chance(30, "staticarr")
		size := 1 + g.n(4, "arrsize")
		var es []*ex
		for i := 0; i < size; i++ {
			if static {
				es = append(es, g.static(1))
			} else {
				es = append(es, g.expr(1))
			}
		}
		n := g.fresh()
		kind := byte('a')
		if static {
			kind = 'q'
		}
		g.declare(gvar{name: n, kind: kind, size: size})
		return []*st{{k: "arr", n: n, es: es}}
	case k < 67:
		if !p.ctrl || g.loops >= 2 {
			return nil
		}
		if g.chance(50, "loop") {
			return g.loop()
		}
		return []*st{g.ifChain(false)}
	case k < 79:
		if !p.funcs || g.fdepth >= 2 || g.loops > 0 {
			return nil
		}
		return g.function()
	case k < 84:
		if !p.hof || !g.canRef() || !g.hasUnary() {
			return nil
		}
		e := g.fref(1)
		n := g.fresh()
		g.declare(gvar{name: n, kind: 'f', sig: &gsig{[]string{"v"}, "v"}})
		return []*st{{k: "var", n: n, e: e}}
	case k < 88:
		fs := append(g.funcsWith("n"), g.funcsWith("v")...)
		if (p.funcs || p.ctrl) && g.chance(15, "builtin") {
			if p.ext && g.chance(30, "ext") {
				return []*st{{k: "call", e: call("scalarBaseMultiply", g.expr(1))}}
			}
			return []*st{{k: "call", e: call("addGateConstraint", g.expr(1), g.expr(1))}}
		}
		if !p.funcs || len(fs) == 0 {
			return nil
		}
		return []*st{{k: "call", e: g.call(pickv(g, fs), 1)}}
	case k < 89 && (p.funcs || p.ctrl):
		// the debugging statement
		b := &st{k: "break"}
		for i := g.n(3, "shown"); i > 0; i-- {
			b.es = append(b.es, g.expr(1))
		}
		return []*st{b}
	case k < 92 && p.bits && g.loops == 0:
		return g.split()
	case k < 92:
		if !p.equals {
			return nil
		}
		e := g.expr(1)
		e2 := e
		if len(e.a) == 2 && (e.op == "+" || e.op == "*") && g.chance(50, "commute") {
			e2 = bin(e.op, e.a[1], e.a[0])
		}
		return []*st{{k: "equal", es: []*ex{e, e2}}}
	default:
		if g.inMain && g.loops == 0 {
			if s := g.obs(); s != nil {
				return []*st{s}
			}
		}
		return nil
	}
}

func (g *pgen) split() []*st {
	if g.nsplit >= 2 {
		return nil
	}
	g.nsplit++
	var out []*st
	n := g.fresh()
	ps := g.kind("p")
	if len(ps) > 0 && g.chance(50, "splitinput") {
		n = pickv(g, ps).name
	} else {
		e := call("addGateConstraint", g.expr(1), g.expr(1))
		if g.p.ext && g.chance(30, "splitext") {
			e = call("scalarBaseMultiply", g.expr(1))
		}
		out = append(out, &st{k: "var", n: n, e: e})
		g.declare(gvar{name: n, kind: 'p'})
	}
	g.declare(gvar{name: n, kind: 'B', size: refN.BitLen()})
	return append(out, &st{k: "split", e: vr(n)})
}

func (g *pgen) loop() []*st {
	c := g.fresh()
	g.loops++
	start, step, cnt := g.n(3, "start"), 1+g.n(2, "step"), g.n(4, "count")
	last := start + (cnt-1)*step
	end := start + cnt*step
	mx := max(last, 0)
	var out []*st
	pre := &st{k: "var", n: c, e: numi(start)}
	// the counter lives in the enclosing block and keeps its last value: it stays readable as a plain static value
	g.push(false)
	g.declare(gvar{name: c, kind: 'c', max: mx})
	body := g.block(1+g.n(3, "loopbody"), false)
	if g.inMain && g.loops == 1 && step == 1 && cnt > 0 && g.nextO+cnt <= g.nout && g.chance(60, "loopobs") {
		// one output per iteration
		i := vr(c)
		switch off := g.nextO - start; {
		case off > 0:
			i = bin("+", i, numi(off))
		case off < 0:
			i = bin("-", i, numi(-off))
		}
		g.nextO += cnt
		body = append(body, g.obsOf(idx(g.outs, i)))
	}
	g.pop()
	g.loops--
	g.declare(gvar{name: c, kind: 's'})
	b := branch{cmp: "<", l: vr(c), r: numi(end)}
	switch g.n(5, "loopcond") {
	case 0:
		b = branch{cmp: "<=", l: vr(c), r: numi(max(end-1, 0))}
		if end == 0 {
			b = branch{cmp: "<", l: vr(c), r: numi(0)}
		}
	case 1:
		b = branch{cmp: "!=", l: vr(c), r: numi(end)}
	case 2:
		b = branch{cmp: ">", l: numi(end), r: vr(c)}
	case 3:
		b = branch{cmp: ">=", l: bin("-", bin("+", numi(end), numi(5)), numi(1)), r: bin("+", vr(c), numi(5))}
	}
	inc := bin("+", vr(c), numi(step))
	if g.chance(30, "incform") {
		inc = bin("-", bin("+", numi(step+2), vr(c)), numi(2))
	}
	out = append(out, pre, &st{k: "for", n: c, alts: []branch{b}, e: inc, body: body})
	return out
}

func (g *pgen) cond() branch {
	cmp := []string{"==", "!=", "<", "<=", ">", ">="}[g.n(6, "cmp")]
	l, r := g.static(2), g.static(1)
	if g.chance(30, "samecond") {
		r = l
		if g.p.bigStatic && g.chance(40, "differhigh") {
			// equal up to something in the upper words
			d := num(new(big.Int).Lsh(big.NewInt(int64(1+g.n(3, "dhigh"))), uint([]int{64, 32, 128, 0, 63, 253}[g.n(6, "dpos")])).String())
			switch g.n(3, "dside") {
			case 0:
				r = bin("+", l, d)
			case 1:
				l, r = bin("+", l, d), l
			default:
				r = bin("-", l, d)
			}
		}
	}
	return branch{cmp: cmp, l: l, r: r}
}

// ifChain; with ret, every branch ends in a return (of a value)
func (g *pgen) ifChain(ret bool) *st {
	n := 1 + g.n(3, "branches")
	s := &st{k: "if"}
	for i := 0; i < n; i++ {
		b := g.cond()
		s.alts = append(s.alts, b)
	}
	if n > 1 || ret || g.chance(50, "else") {
		s.alts = append(s.alts, branch{})
	}
	for i := range s.alts {
		g.push(false)
		g.loops++ // keeps blocks small: no functions in branches, bounded nesting
		body := g.block(g.n(3, "branchbody"), false)
		if g.inMain && g.loops == 1 && g.chance(50, "branchobs") {
			g.loops--
			if o := g.obs(); o != nil {
				body = append(body, o)
			}
			g.loops++
		}
		if ret {
			body = append(body, &st{k: "ret", e: g.expr(g.p.depth - 1)})
		}
		g.loops--
		g.pop()
		s.alts[i].body = body
	}
	return s
}

func (g *pgen) function() []*st {
	sig := &gsig{ret: "v"}
	np := 1 + g.n(3, "nparams")
	var params []string
	var pv []gvar
	for i := 0; i < np; i++ {
		name := g.fresh()
		if g.p.shadow && g.chance(35, "shadow") {
			if vs := g.kind("vas"); len(vs) > 0 {
				name = pickv(g, vs).name
				for _, q := range pv {
					if q.name == name {
						name = g.fresh()
					}
				}
			}
		}
		k := g.n(10, "pkind")
		switch {
		case k == 0 && g.p.ctrl:
			sig.params = append(sig.params, "s")
			pv = append(pv, gvar{name: name, kind: 's'})
			params = append(params, name)
		case k == 1 && g.p.arrays:
			sz := 1 + g.n(3, "parr")
			sig.params = append(sig.params, fmt.Sprintf("A%d", sz))
			pv = append(pv, gvar{name: name, kind: 'a', size: sz})
			params = append(params, fmt.Sprintf("%s[%d]", name, sz))
		case k == 2 && g.p.equals && !sig.hasOut():
			sig.params = append(sig.params, "o")
			pv = append(pv, gvar{name: name, kind: 'o'})
			params = append(params, name)
		case k <= 3 && g.p.hof && g.hasUnary():
			sig.params = append(sig.params, "f")
			pv = append(pv, gvar{name: name, kind: 'f', sig: &gsig{[]string{"v"}, "v"}})
			params = append(params, name)
		default:
			sig.params = append(sig.params, "v")
			pv = append(pv, gvar{name: name, kind: 'v'})
			params = append(params, name)
		}
	}
	name := g.fresh()
	saveMain, saveLoops := g.inMain, g.loops
	g.inMain, g.loops = false, 0
	g.fdepth++
	g.push(true)
	for _, v := range pv {
		g.declare(v)
	}
	var body []*st
	shape := g.n(12, "fshape")
	rec := false
	if shape == 0 && g.p.ctrl && !sig.hasOut() {
		// recursion over a static counter, the first parameter
		rec = true
		cn := g.fresh()
		params = append([]string{cn}, params...)
		sig.params = append([]string{"s"}, sig.params...)
		g.declare(gvar{name: cn, kind: 's'})
		base := &st{k: "if", alts: []branch{{cmp: "==", l: vr(cn), r: num("0"), body: []*st{{k: "ret", e: g.expr(1)}}}}}
		if g.chance(30, "bareret") {
			base.alts[0].body[0].e = nil
		}
		body = append(body, base)
		body = append(body, g.block(g.n(2, "recbody"), false)...)
		var as []*ex
		for i, p := range sig.params {
			if i == 0 {
				as = append(as, bin("-", vr(cn), num("1")))
				continue
			}
			switch p[0] {
			case 'v':
				as = append(as, g.expr(1))
			case 's':
				as = append(as, numi(g.n(4, "srec")))
			case 'f':
				as = append(as, vr(pv[i-1].name))
			case 'A':
				for j := 0; j < pv[i-1].size; j++ {
					as = append(as, idx(pv[i-1].name, numi(pv[i-1].size-1-j)))
				}
			}
		}
		rc := call(name, as...)
		switch g.n(3, "recret") {
		case 0:
			body = append(body, &st{k: "ret", e: bin("*", g.expr(1), rc)})
		case 1:
			body = append(body, &st{k: "ret", e: bin("-", rc, g.expr(1))})
		default:
			body = append(body, &st{k: "ret", e: rc})
		}
	} else {
		if g.p.shadow && g.chance(25, "shadowlocal") {
			if vs := g.visible(func(v gvar) bool { return v.kind == 'v' }); len(vs) > 0 {
				v := pickv(g, vs)
				clash := false
				for _, q := range g.fr[len(g.fr)-1].vars {
					clash = clash || q.name == v.name
				}
				if !clash {
					body = append(body, &st{k: "var", n: v.name, e: g.number()})
					g.declare(gvar{name: v.name, kind: 'v'})
				}
			}
		}
		body = append(body, g.block(g.n(3, "fbody"), false)...)
		for _, v := range pv {
			if v.kind == 'o' {
				o := g.obsOf(vr(v.name))
				if g.p.ctrl && g.chance(25, "obsinbranch") {
					body = append(body, &st{k: "if", alts: []branch{{cmp: "<", l: numi(1), r: numi(2), body: []*st{o}}}})
				} else {
					body = append(body, o)
				}
			}
		}
		switch {
		case shape == 1:
			sig.ret = "n"
			if len(body) == 0 {
				body = append(body, &st{k: "var", n: g.fresh(), e: g.expr(1)})
			}
			if g.chance(30, "bareret") {
				body = append(body, &st{k: "ret"})
			}
		case (shape == 2 || shape == 3) && g.p.hof && g.fdepth < 3:
			// returns a closure
			inner := g.fresh()
			ip := g.fresh()
			g.push(true)
			g.declare(gvar{name: ip, kind: 'v'})
			e := bin([]string{"+", "*", "-"}[g.n(3, "innerop")], vr(ip), g.expr(1))
			g.pop()
			body = append(body, &st{k: "func", n: inner, params: []string{ip}, body: []*st{{k: "ret", e: e}}, asVar: g.chance(50, "asvar")}, &st{k: "ret", e: vr(inner)})
			sig.ret = "f"
		case shape == 4 && g.p.ctrl:
			body = append(body, g.ifChain(true))
		case shape == 5 && g.p.ctrl:
			c := g.fresh()
			body = append(body, &st{k: "var", n: c, e: num("0")})
			g.push(false)
			g.declare(gvar{name: c, kind: 'c', max: 2})
			brk := &st{k: "if", alts: []branch{{cmp: "==", l: vr(c), r: numi(g.n(4, "brk")), body: []*st{{k: "ret", e: g.expr(1)}}}}}
			lb := g.block(g.n(2, "lb"), false)
			if g.chance(50, "brkfirst") {
				lb = append([]*st{brk}, lb...)
			} else {
				lb = append(lb, brk)
			}
			g.pop()
			body = append(body, &st{k: "for", n: c, alts: []branch{{cmp: "<", l: vr(c), r: num("3")}}, e: bin("+", vr(c), num("1")), body: lb}, &st{k: "ret", e: g.expr(1)})
		default:
			body = append(body, &st{k: "ret", e: g.expr(g.p.depth)})
		}
	}
	g.pop()
	g.fdepth--
	g.inMain, g.loops = saveMain, saveLoops
	_ = rec
	g.declare(gvar{name: name, kind: 'f', sig: sig})
	return []*st{{k: "func", n: name, params: params, body: body, asVar: g.chance(40, "asvar")}}
}

func (g *pgen) program() *program {
	p := &program{main: &st{}}
	g.prog = p
	g.push(false) // globals
	if g.p.arrays && g.chance(40, "globals") {
		for i := 0; i < 1+g.n(2, "nglob"); i++ {
			n := g.fresh()
			if g.chance(50, "globarr") {
				size := 1 + g.n(3, "gsize")
				var es []*ex
				for j := 0; j < size; j++ {
					es = append(es, numi(g.n(20, "gval")))
				}
				p.top = append(p.top, &st{k: "arr", n: n, es: es})
				g.declare(gvar{name: n, kind: 'q', size: size})
			} else {
				p.top = append(p.top, &st{k: "var", n: n, e: numi(g.n(20, "gval"))})
				g.declare(gvar{name: n, kind: 'v'})
			}
		}
	}
	if g.p.funcs {
		for i := 0; i < g.n(4, "ntop"); i++ {
			for _, s := range g.function() {
				s.asVar = false
				p.top = append(p.top, s)
			}
		}
	}
	p.mainPos = g.n(len(p.top)+1, "mainpos")
	g.push(true)
	g.inMain = true
	ni := 1 + g.n(3, "ninputs")
	for i := 0; i < ni; i++ {
		n := g.fresh()
		if g.p.arrays && g.chance(25, "arrin") {
			sz := 1 + g.n(3, "arrinsize")
			p.main.params = append(p.main.params, fmt.Sprintf("%s[%d]", n, sz))
			g.declare(gvar{name: n, kind: 'a', size: sz})
		} else {
			p.main.params = append(p.main.params, n)
			kind := byte('v')
			if g.p.bits && g.chance(60, "pureinput") {
				kind = 'p'
			}
			g.declare(gvar{name: n, kind: kind})
		}
	}
	g.nout = g.p.outs
	g.outs = g.fresh()
	at := g.n(len(p.main.params)+1, "outpos")
	p.main.params = append(p.main.params[:at:at], append([]string{fmt.Sprintf("%s[%d]", g.outs, g.nout)}, p.main.params[at:]...)...)
	p.inputs = flatten(p.main.params)
	if g.chance(80, "public") {
		p.publics = []*ex{}
		perm := rapid.Permutation(p.inputs).Draw(g.t, "perm")
		k := g.n(len(perm)+1, "npub")
		for _, n := range perm[:k] {
			p.publics = append(p.publics, nameExpr(n))
		}
		if k == 0 {
			p.publics = nil
		}
	}
	if g.p.bits && g.chance(90, "splitfirst") {
		p.main.body = g.split()
	}
	p.main.body = append(p.main.body, g.block(1+g.n(g.p.stmts, "nstmts"), false)...)
	for g.nextO < g.nout {
		p.main.body = append(p.main.body, g.obs())
	}
	switch g.n(3, "mainret") {
	case 0:
		p.main.body = append(p.main.body, &st{k: "ret", e: g.expr(g.p.depth)})
	case 1:
		p.main.body = append(p.main.body, &st{k: "ret"})
	}
	g.pop()
	g.pop()
	return p
}

func nameExpr(n string) *ex {
	i := strings.IndexByte(n, '[')
	if i < 0 {
		return vr(n)
	}
	e := idx(n[:i])
	for _, d := range strings.Split(strings.TrimSuffix(n[i+1:], "]"), "][") {
		e.a = append(e.a, num(d))
	}
	return e
}

// ---- cases ----

type trial struct {
	In    []string
	Err   bool  // must be rejected: a division by zero or contradicting assertions
	Chk   []int // inputs that are asserted to equal a result: any other value must be rejected
	Delta string
}

type progCase struct {
	Src    string
	Inputs []string
	Pub    []string
	Trials []trial
	Feat   []string
	Sys    *system `json:",omitempty"` // constraints that take the place of the program's
}

const progMuls = 150

// genProg draws a program and its trials.
func genProg(t *rapid.T, pr profile, trials int) (c progCase, prog *program) {
	for attempt := 0; ; attempt++ {
		if attempt > 6 {
			pr = profile{depth: 2, stmts: 2, outs: 1}
		}
		p := pr
		if attempt == 0 && pr.maxMuls == 0 && rapid.IntRange(0, 89).Draw(t, "largeprog") == 41 {
			p.stmts, p.depth = p.stmts*6, p.depth+2
		}
		g := &pgen{t: t, p: p}
		prog = g.program()
		c = progCase{Src: prog.render(plain()), Inputs: prog.inputs}
		for _, p := range prog.publics {
			c.Pub = append(c.Pub, plain().expr(p))
		}
		ok := true
		feats := map[string]int{}
		for i := 0; i < trials && ok; i++ {
			var tr trial
			prog.maxMuls = pr.maxMuls
			tr, ok = prog.trial(genInputs(t, len(prog.inputs)), feats)
			tr.Delta = genNZ(t, "delta").String()
			if ok {
				unreduce(t, tr.In)
			}
			c.Trials = append(c.Trials, tr)
		}
		if !ok {
			continue
		}
		c.Feat = sortedKeys(feats)
		return
	}
}

// unreduce sometimes replaces inputs with other integers of the same residue.
func unreduce(t *rapid.T, in []string) {
	if rapid.IntRange(0, 7).Draw(t, "unreduced") != 7 {
		return
	}
	for i := range in {
		k := rapid.IntRange(-2, 2).Draw(t, "multiple")
		in[i] = new(big.Int).Add(bi(in[i]), new(big.Int).Mul(refN, big.NewInt(int64(k)))).String()
	}
}

func genInputs(t *rapid.T, n int) []*big.Int {
	in := make([]*big.Int, n)
	for i := range in {
		if rapid.IntRange(0, 3).Draw(t, "small") == 0 {
			in[i] = big.NewInt(int64(rapid.IntRange(0, 6).Draw(t, "in")))
		} else {
			in[i] = genRelated(t, in[:i], "in")
		}
	}
	return in
}

// trial interprets the program, fills in the outputs, and tells whether the program is usable.
func (p *program) trial(in []*big.Int, feats map[string]int) (tr trial, ok bool) {
	conflict := false
	seen := map[int]bool{}
	ip := &interp{limit: 6000, feat: feats, equal: func(l, r *big.Int) {
		if l.Cmp(r) != 0 {
			conflict = true
		}
	}, obs: func(i int, v *big.Int) {
		if seen[i] && in[i].Cmp(v) != 0 {
			conflict = true
		}
		if !seen[i] {
			tr.Chk = append(tr.Chk, i)
		}
		seen[i] = true
		in[i] = v
	}}
	o := p.run(ip, in)
	if o.costly || ip.muls > progMuls || p.maxMuls > 0 && ip.muls > p.maxMuls || ip.nonStatic {
		return tr, false
	}
	if o.invalid != "" {
		panic("generator: " + o.invalid + "\n" + p.render(plain()))
	}
	tr.In = strs(in)
	tr.Err = o.divZero || conflict
	if tr.Err {
		tr.Chk = nil
	}
	return tr, true
}
