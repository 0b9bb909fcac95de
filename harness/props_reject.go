package main

// C12: malformed programs are refused: no constraint system comes out, and the compiler ends.

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"pgregory.net/rapid"
)

type rejCase struct {
	Good string
	Bad  string
	Kind string
	Pos  string
	Hole string
}

// genRejectDead puts the error into code that is never executed. What is refused there is what the text alone shows:
// syntax, declarations, and variables that are read or assigned.
func genRejectDead(t *rapid.T) rejCase { return genRejectAt(t, true) }

func genReject(t *rapid.T) rejCase { return genRejectAt(t, false) }

func genRejectAt(t *rapid.T, dead bool) rejCase {
	d := func(k int, l string) int { return rapid.IntRange(0, k-1).Draw(t, l) }
	pick := func(l string, xs ...string) string { return xs[d(len(xs), l)] }
	n := 1 + d(3, "n")
	arity := 1 + d(3, "arity")
	params := strings.Split("p,q,s", ",")[:arity]
	fbody := []string{"var r = " + pick("fb", "p", "p * p", "p + 3", "p * 2 - p", "(p + 1) * p"), "return r"}
	fun := func(name string) string {
		return "func " + name + "(" + strings.Join(params, ",") + "){\n" + strings.Join(fbody, "\n") + "\n}"
	}
	call := func(extra int) string {
		var a []string
		for i := 0; i < arity+extra; i++ {
			a = append(a, pick("arg", "x", "y", "3", "a[0]", "x * y", "c + 1"))
		}
		return "f(" + strings.Join(a, ", ") + ")"
	}
	ok := func(i int) string {
		w := fmt.Sprintf("ok%d", i)
		switch d(9, "ok") {
		case 0:
			return "var " + w + " = x * y"
		case 1:
			return "var " + w + " = " + call(0)
		case 2:
			return "equal(y * y, y * y)"
		case 3:
			return "if " + pick("cond", "1 < 2", "c == 4", "4 <= c", "c != 5") + "{\nvar " + w + " = x * 3\n}"
		case 4:
			return "var " + w + " = 0\nfor(" + w + " < 2; " + w + " = " + w + " + 1){\nvar i" + w + " = x * x\n}"
		case 5:
			return "var " + w + "[] = {x, y * y, 3}"
		case 6:
			return "var " + w + " = a[" + fmt.Sprint(d(n, "ai")) + "] * y"
		case 7:
			return "var " + w + " = (x + c) / (y + 1)"
		}
		return "# nothing"
	}
	var before, after []string
	cnt := 0
	for i := d(3, "before"); i > 0; i-- {
		before = append(before, ok(cnt))
		cnt++
	}
	for i := d(3, "after"); i > 0; i-- {
		after = append(after, ok(cnt))
		cnt++
	}
	pub := ""
	if d(2, "pub") == 0 {
		pub = "public{" + pick("publics", "x", "x, y", "a[0]", "y, a[0]") + "}"
	}
	pubBad := ""
	where := 0
	if dead {
		where = 6 + d(5, "where")
	} else {
		where = d(6, "where")
	}
	// build renders the program with the given statement in the hole
	build := func(hole string, full func(string) string) string {
		var main []string
		add := func(s ...string) {
			for _, x := range s {
				if x != "" {
					main = append(main, x)
				}
			}
		}
		p := pub
		if pubBad != "" && hole == "@" {
			p, hole = pubBad, ""
		}
		add(p, "var c = 4", "var b[] = {x, 7, y}")
		add(before...)
		other := ""
		switch where {
		case 0:
			add(hole)
		case 1:
			add("if c == 4{\n" + hole + "\n}")
		case 2:
			add("if c == 3{\nvar no = 3\n}else{\n" + hole + "\n}")
		case 3:
			add("var i = 0\nfor(i < 2; i = i + 1){\n" + hole + "\n}")
		case 4:
			other = "func g(x, y, a[" + fmt.Sprint(n) + "], c){\nvar b[] = {x, 7, y}\n" + hole + "\nreturn x * y\n}\n"
			var as []string
			for i := 0; i < n; i++ {
				as = append(as, fmt.Sprintf("a[%d]", i))
			}
			add("var z = g(x, y, " + strings.Join(as, ", ") + ", c)")
		case 5:
			add("func g(x, y){\n" + hole + "\nreturn x * y\n}\nvar z = g(x, y)")
		case 6:
			add("if c == 3{\n" + hole + "\n}")
		case 7:
			add("if c == 4{\nvar no = 3\n}else{\n" + hole + "\n}")
		case 8:
			add("var i = 0\nfor(i > 2; i = i + 1){\n" + hole + "\n}")
		case 9:
			other = "func g(x, y, a[" + fmt.Sprint(n) + "], c){\nvar b[] = {x, 7, y}\n" + hole + "\nreturn x * y\n}\n"
		case 10:
			add("func g(x, y){\n" + hole + "\nreturn x * y\n}")
		}
		add(after...)
		s := other + fun("f") + "\nfunc main(x, y, a[" + fmt.Sprint(n) + "]){\n" + strings.Join(main, "\n") + "\nreturn x * y\n}\n"
		if full != nil {
			s = full(s)
		}
		return s
	}
	good := build("", nil)
	var kind, hole string
	var full func(string) string
	v := pick("v", "x", "y", "a[0]", "x * y", "y + 1", "b[2]")
	u := pick("undeclared", "u", "undefined", "X", "mainn", "aa", "y_", "ff", "p", "r", "ok99")
	rep := func(from, to string, last bool) func(string) string {
		return func(s string) string {
			i := strings.Index(s, from)
			if last {
				i = strings.LastIndex(s, from)
			}
			if i < 0 {
				return s
			}
			return s[:i] + to + s[i+len(from):]
		}
	}
	k := 0
	if dead {
		k = []int{0, 0, 0, 3, 4, 6, 8, 12, 14}[d(9, "kind")]
	} else {
		k = d(15, "kind")
	}
	switch k {
	case 0:
		kind = "undeclared name"
		if dead {
			hole = pick("form", "var w = U", "var w = U + V", "var w = V * (3 - U)", "equal(U, V)", "equal(V, V * U)", "U = V", "var w = f(U)", "var w[] = {V, U}", "var w = b[U]", "SPLIT(U)", "U = 3", "var w = U / V", "var w = V / U", "var w = U * 0", "var w = 0 * U", "var w = U - U", "if 1 < 2{\nvar w = U\n}", "for(c < 2; c = c + 1){\nvar w = U\n}", "func w(q1){\nreturn q1 + U\n}", "var w = 3\nvar q = w * U", "func w(p){\nreturn p\n}\nvar q = u", "return U", "return V * U", "var w = func(q){return q * U}", "if 1 > 2{\nvar q = 1\n}else{\nvar w = U\n}")
			break
		}
		hole = pick("form", "var w = U", "var w = U + V", "var w = V * (3 - U)", "equal(U, V)", "equal(V, V * U)", "var w = U[0]", "U = V", "U[0] = V", "var w = U(V)", "U(V)", "equal(V, U(V))", "var w = f(U)",
			"var w[] = {V, U}", "if U < 3{\nvar q = 3\n}", "for(U < 3; U = U + 1){\nvar q = 3\n}", "var w = b[U]", "SPLIT(U)", "U = 3", "var w = U / V", "var w = V / U", "var w = U * 0", "var w = 0 * U", "var w = U - U", "var w = x[0]", "var w = f[0]")
	case 1:
		kind = "too many arguments"
		hole = pick("form", "var w = CALL", "equal(CALL, V)", "var w = V * CALL", "var w = CALL + 1", "var w[] = {CALL}")
		hole = strings.ReplaceAll(hole, "CALL", call(1+d(2, "extra")))
	case 2:
		kind = "array index"
		idx := pick("idx", "3", "4", "100", "0 - 1", "1 - 2", "c", "c * c", "1 + 2", "x", "y", "b[0]", "x * x", "x - y + 1", "f(x)", "y * 3", "")
		hole = pick("form", "var w = b[IDX]", "equal(b[IDX], V)", "var w = V * b[IDX]", "b[IDX] = V", "var w = b[0][IDX]", "var w = b[IDX][0]", "var w = b[IDX] * 0")
		hole = strings.ReplaceAll(hole, "IDX", idx)
	case 3:
		kind = "second declaration"
		hole = pick("form", "var w = V\nvar w = 3", "var w = 3\nvar w = V", "func w(p){\nreturn p\n}\nvar w = 3", "func w(p){\nreturn p\n}\nfunc w(q){\nreturn q\n}", "var w[] = {3, V}\nvar w[] = {3}", "var w = func(p){return p}\nvar w = func(p){return p}", "var w = 3\nfunc w(p){\nreturn p\n}",
			"func w(p, p){\nreturn p\n}\nvar ww = w(x, y)", "func w(p, q, p){\nreturn p\n}\nvar ww = w(1, 2, 3)", "func w(p[2], p[3]){\nreturn p\n}\nvar ww = w(1, 2, 3, 4, 5)")
	case 4:
		kind = "brackets"
		hole = pick("form", "var w = (V + 1", "var w = V + 1)", "var w = ((V + 1) * 2", "var w = (V + 1)) * 2", "equal(V, V", "equal V, V)", "var w = b[0", "var w = b 0]", "var w = f(V", "var w = f V)", "if 1 < 2\nvar q = 3\n}", "if 1 < 2{\nvar q = 3", "var w[] = {1, 2", "var w[] = 1, 2}", "var w] = {1, 2}", "var w[ = {1, 2}", "var w[2 = {1, 2}", "var w[c = {1, 2}", "var w(] = {1, 2}", "var w[) = {1, 2}", "var w[] = (1, 2)", "var w[] = {1, 2)", "var w[] = [1, 2]", "equal(V, V]", "equal[V, V]", "equal{V, V}", "var w = {V}", "var w = [V]", "var w = (V]", "var w = b(0]", "var w = b[0)", "var w = b{0}", "if (1 < 2{\nvar q = 3\n}",
			"for(c < 4; c = c + 1{\nvar q = 3\n}", "for c < 4; c = c + 1){\nvar q = 3\n}", "func w(p{\nreturn p\n}", "func w p){\nreturn p\n}", "func w(p)\nreturn p\n}", "func w(p){\nreturn p", "if 1 < 2{\nvar q = 3\n}}", "var w = )V(", "var w = ()", "var w = b[]", "var w = (", "var w = )", "}", "{", ")", "]")
	case 5:
		kind = "condition on an input"
		c := pick("dyn", "x < 3", "y == y * 1", "3 <= x", "x * x != 2", "a[0] > 1", "b[2] >= 0", "f(x) < 9", "x == y")
		hole = pick("form", "if DYN{\nvar q = 3\n}", "if 1 > 2{\nvar q = 1\n}else if DYN{\nvar q = 3\n}else{\nvar q = 4\n}", "for(DYN; c = c + 1){\nvar q = 3\n}", "var k = x\nfor(k < 3; k = k + 1){\nvar q = 3\n}")
		hole = strings.ReplaceAll(hole, "DYN", c)
	case 6:
		kind = "incomplete statement"
		hole = pick("form", "var w", "var", "var = 3", "var w =", "var w = 3 +", "var w = * 3", "var w = V + * 3", "var w = V + / 3", "var w = V V", "var w = V 3", "var w = 3 V", "V", "3", "V + 3", "var 3 = V", "= 3", "var w = = 3", "c =", "c", "c + 1", "c 3", "b[0]", "b[0] =", "return V\nvar w = 3",
			"equal(,V)", "equal(V V)", "equal", "var w = f(,V)", "var w[] = {,}", "var w[] =", "var w[]", "var w[2] = {1, 2}", "if{\nvar q = 3\n}", "if 1 <{\nvar q = 3\n}", "if < 2{\nvar q = 3\n}", "for(){\nvar q = 3\n}", "for(;){\nvar q = 3\n}", "for(c < 4){\nvar q = 3\n}", "for(c < 4;){\nvar q = 3\n}", "for(; c = c + 1){\nvar q = 3\n}", "for(c < 4; c){\nvar q = 3\n}", "for(c < 4; c + 1){\nvar q = 3\n}", "for{\nvar q = 3\n}", "for(c < 4; c = c + 1)\nvar q = 3",
			"func{\nreturn 3\n}", "func w{\nreturn 3\n}", "func (p){\nreturn p\n}", "func w(3){\nreturn 3\n}", "func w(p + 1){\nreturn p\n}", "func w(p[0]){\nreturn 3\n}", "func w(p[k]){\nreturn 3\n}", "func w(p[]){\nreturn 3\n}", "func w(p q){\nreturn p\n}", "func 3(p){\nreturn p\n}", "var w = func{return 3}", "var w = func(p)", "var w = func", "func", "func w", "func w(p)",
			"var w = CALLOK 3", "var w = CALLOK V", "var w = CALLOK[0]", "var w = CALLOK(V)", "var w = 3 CALLOK", "equal(CALLOK 3, V)", "var w = V + CALLOK 3", "var w = a[0] 3", "var w = b[0] V", "var w = b[0](V)", "equal(b[0] V, V)", "equal(V, V) V", "equal(V, V) + 3", "CALLOK = 3", "CALLOK V",
			"import", "import 3", "else{\nvar q = 3\n}", "if 1 < 2{\nvar q = 3\n}else if 2 < 3{\nvar q = 4\n}", "if 1 > 2{\nvar q = 3\n}else if 2 < 1{\nvar q = 4\n}", "if 1 < 2{\nvar q = 3\n}\nelse{\nvar q = 4\n}", "else if 1 < 2{\nvar q = 3\n}", "if 1 < 2{\nvar q = 1\n}else{\nvar q = 2\n}else{\nvar q = 3\n}", "var w = V, 3", "var w = V; var ww = V", "var w = V:", ":", ";", ",", "var w = if", "var w = return", "var w = var", "var w = for", "var w = else", "if = 3", "var if = 3", "var return = V", "var func = 3", "var public = 3")
	case 7:
		kind = "unsupported operator"
		hole = pick("form", "var w = V && V", "var w = V || 3", "var w = V >> 1", "var w = V << 1", "var w = V < 3", "var w = V == V", "var w = V != V", "var w = 3 < V", "equal(V < 3, 1)", "c += 1", "c *= 2", "c -= 1", "c /= 2", "c ++", "c++", "var w += 3", "var w = (c = 3)", "equal(c = 4, 3)", "var w = x = 3", "var w = x += 3", "if c + 1{\nvar q = 3\n}", "if c{\nvar q = 3\n}", "if 1{\nvar q = 3\n}", "if c = 4{\nvar q = 3\n}", "for(c + 1; c = c + 1){\nvar q = 3\n}", "for(c = 3; c = c + 1){\nvar q = 3\n}", "for(c < 4; c += 1){\nvar q = 3\n}", "for(c < 4; c == c + 1){\nvar q = 3\n}", "c == 3")
	case 8:
		kind = "characters"
		ch := pick("char", "$", "@", "!", "&", "|", ".", "'", "ä", "∑", "?", "~", "^", "%", "\\", "`", "\u00a0", "\x00", "\xff", "\xc3")
		hole = pick("form", "var w = V CH 3", "var w = VCH", "CH", "var CH = 3", "equal(V CH V, 3)", "var wCHw = 3", "CHvar w = 3")
		hole = strings.ReplaceAll(hole, "CH", ch)
	case 9:
		kind = "builtin arguments"
		hole = pick("form", "equal()", "equal(V)", "equal(V, V, V)", "SPLIT()", "SPLIT(x, y)", "addGateConstraint()", "addGateConstraint(V)", "scalarBaseMultiply()", "scalarBaseMultiply(V, 3)", "var w = scalarBaseMultiply()", "var w = SPLIT()", "SPLIT(5)", "SPLIT(1)", "SPLIT(x + y)", "SPLIT(x + 1)", "SPLIT(2 * x)", "SPLIT(x - y)")
	case 10:
		kind = "constant division by zero"
		hole = pick("form", "var w = V / 0", "var w = 3 / 0", "equal(V / 0, 3)", "var w = 1 / (c - 4)", "var w = V / (3 - 3)", "var w = (V * V) / (2 * 0)", "var w = f(1 / 0)", "var w = 0 / 0", "var w = V / (c - c)")
	case 11:
		kind = "public"
		where = 0
		good = build("", nil)
		hole = "@"
		pubBad = pick("form", "public{u}", "public{x, u}", "public{a}", "public{a[N]}", "public{x, x}", "public{a[0], a[0]}", "public{x, y, x}", "public{3}", "public{x + 1}", "public{,x}", "public{x y}", "public{x", "public x}", "public x", "public", "public(x)", "public[x]", "public{f}", "public{main}", "public{x[0]}", "public{c}", "public{b[0]}", "public{a[x]}", "public{a[0 - 1]}", "public{x}\npublic{x}", "public{x}\npublic{u}")
		pubBad = strings.ReplaceAll(pubBad, "N", fmt.Sprint(n))
	case 12:
		kind = "public outside of main"
		if dead {
			where = 9 + where%2
		} else if where == 0 || where == 3 || where == 1 || where == 2 {
			where = 4 + where%2
		}
		good = build("", nil)
		hole = pick("form", "public{x}", "public{y}", "public{x, y}")
	case 13:
		kind = "program structure"
		switch d(12, "struct") {
		case 0:
			full = rep("func main(", pick("nomain", "func Main(", "func main2(", "func (", "func(", "main("), true)
		case 1:
			full = func(s string) string { return s + "func main(x){\nreturn x\n}\n" }
		case 2:
			full = func(s string) string { return s + fun("f") + "\n" }
		case 3:
			full = func(s string) string { return "" }
		case 4:
			full = func(s string) string {
				return pick("imp", "import \"/nonexistent/file\"", "import \"\"", "import", "import main", "import 3", "import \"/nonexistent/file") + "\n" + s
			}
		case 5:
			full = func(s string) string {
				return s + pick("tail", "}", ")", "]", "{", "(", "[", "3", "x", "+", "var w", "$", "\"", "else{\n}", "func", "u = 3", "var w = u", "return u") + pick("eol", "", "\n")
			}
		case 6:
			full = func(s string) string {
				return pick("head", "}", ")", "]", "{", "(", "[", "3", "x", "+", "var w", "$", "else{\n}", "func", "u = 3", "var w = u") + "\n" + s
			}
		case 7:
			full = rep("func main(x, y,", pick("params", "func main(x, x,", "func main(x, 3,", "func main(x, y + 1,", "func main(x, y, x,", "func main(x, y, a[2],", "func main(x y,", "func main(x,, y,", "func main(x, y, z[0],", "func main(x, y, z[c],", "func main x, y,", "func main((x, y,"), true)
		case 8:
			// one bracket less
			full = func(s string) string {
				var at []int
				for i, ch := range s {
					if strings.ContainsRune("(){}[]", ch) {
						at = append(at, i)
					}
				}
				i := at[d(len(at), "bracket")]
				return s[:i] + s[i+1:]
			}
		case 9:
			// one bracket more
			full = func(s string) string {
				i := d(len(s), "at")
				if strings.Contains(s[strings.LastIndex(s[:i], "\n")+1:i], "#") {
					i += strings.Index(s[i:], "\n") + 1 // not in a comment
				}
				return s[:i] + pick("bracket", "(", ")", "{", "}", "[", "]") + s[i:]
			}
		case 10:
			full = rep("return x * y\n}\n", pick("cut", "return x * y\n", "return x *\n}\n", "return u\n}\n", "return x y\n}\n", "return x * y\nvar w = 3\n}\n", "return (x * y\n}\n", "return x * y}}\n", "return x, y\n}\n", "return = 3\n}\n"), true)
		case 11:
			full = func(s string) string {
				i := strings.LastIndex(s, "func main")
				return s[:i] + pick("x", "x", "3", "{", "var ") + s[i:]
			}
		}
	case 14:
		kind = "return in the middle"
		hole = pick("form", "return V\nvar w = 3", "return\nvar w = 3", "return 3\nequal(V, V)", "return V\nreturn V")
	}
	if strings.Contains(hole, "CALLOK") {
		hole = strings.ReplaceAll(hole, "CALLOK", call(0))
	}
	hole = strings.ReplaceAll(hole, "U", u)
	hole = strings.ReplaceAll(hole, "SPLIT", "SP_")
	if kind != "characters" || !strings.Contains(hole, "VCH") {
		hole = replaceWord(hole, "V", v)
	}
	hole = strings.ReplaceAll(hole, "SP_", "SPLIT")
	return rejCase{Hole: hole + pubBad, Good: good, Bad: build(hole, full), Kind: kind, Pos: []string{"main", "if", "else", "for", "function", "local function", "untaken branch", "untaken else", "loop without a round", "unused function", "unused local function"}[where]}
}

func replaceWord(s, word, by string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if refIdent(s[i]) {
			j := i
			for j < len(s) && refIdent(s[j]) {
				j++
			}
			if s[i:j] == word {
				b.WriteString(by)
			} else {
				b.WriteString(s[i:j])
			}
			i = j
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

const rejLimit = 20 * time.Second

func runReject(c *rejCase, r *R) {
	r.Label(c.Kind)
	code, out := compileProcess(r, c.Good, c.Bad)
	if !strings.Contains(out, "FIRST ACCEPTED") {
		r.Failf("the program without the error does not compile: %s", out)
	}
	switch code {
	case exHeld:
		r.Failf("accepted (%s, in %s): %s", c.Kind, c.Pos, out)
	case -1:
		r.Failf("the compiler does not end (%s, in %s): %s", c.Kind, c.Pos, out)
	}
	r.NonTrivialIf(c.Good != c.Bad)
}

type textCase struct{ S []byte }

// genText: programs with some of their tokens removed, doubled, exchanged or replaced, and sequences of random tokens.
func genText(t *rapid.T) textCase {
	if rapid.IntRange(0, 3).Draw(t, "soup") == 0 {
		return textCase{S: genLex(t).S}
	}
	c, _ := genProg(t, profile{depth: 1, stmts: 4, funcs: true, ctrl: true, arrays: true, equals: true, outs: 1}, 1)
	toks, _ := refLex(c.Src)
	for i := rapid.IntRange(1, 4).Draw(t, "edits"); i > 0 && len(toks) > 1; i-- {
		k := rapid.IntRange(0, len(toks)-1).Draw(t, "at")
		l := rapid.IntRange(k, min(len(toks)-1, k+3)).Draw(t, "to")
		switch rapid.IntRange(0, 4).Draw(t, "edit") {
		case 0:
			toks = append(toks[:k:k], toks[l+1:]...)
		case 1:
			toks = append(toks[:l+1:l+1], toks[k:]...)
		case 2:
			toks[k], toks[l] = toks[l], toks[k]
		case 3:
			toks = toks[:k]
		case 4:
			toks[k].id = rapid.SampledFrom(lexParts).Draw(t, "part")
		}
	}
	var b strings.Builder
	for _, x := range toks {
		b.WriteString(x.id)
		if x.id != "\n" && x.typ != cc.FUNCTION_CALL {
			b.WriteByte(' ')
		}
	}
	return textCase{S: []byte(b.String())}
}

func runText(c *textCase, r *R) {
	code, out := textProcess("parse", [][]byte{c.S})
	if code == -1 {
		r.Failf("reading %q does not end: %s", c.S, out)
	}
	r.LabelIf(code == exHeld, "accepted")
	toks, _ := refLex(string(c.S))
	r.NonTrivialIf(len(toks) > 10)
}

// compileProcess compiles two programs in a process of their own. 0: both accepted; exFail: the second is refused; -1: it does not end
func compileProcess(r *R, a, b string) (int, string) {
	return textProcess("compile", [][]byte{[]byte(a), []byte(b)})
}

func textProcess(mode string, texts [][]byte) (int, string) {
	f, err := os.CreateTemp("", "compile*.json")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	f.Write(mustJSON(texts))
	f.Close()
	code, stdout, stderr, timedOut, err := runSelf(rejLimit, "-mode", mode, "-file", f.Name())
	switch {
	case err != nil:
		panic(err)
	case timedOut:
		return -1, stdout + " (stopped after " + rejLimit.String() + ")"
	case strings.Contains(stderr, "all goroutines are asleep"):
		return -1, stdout + " deadlock"
	case strings.Contains(stderr, "out of memory") || strings.Contains(stderr, "stack exceeds") || strings.Contains(stderr, "cannot allocate memory"):
		return -1, stdout + " runs out of memory: " + clip(stderr, 300)
	case code == exHeld || code == exFail:
		return code, stdout
	case isGoCrash(code, stderr):
		return exFail, stdout + crashLine(stderr)
	}
	panic(fmt.Sprintf("compile process ended with %d: %s", code, clip(stderr, 400)))
}

// compileMode is the body of that process.
func compileMode() int {
	var p [][]byte
	b, err := os.ReadFile(*fFile)
	if err == nil {
		err = json.Unmarshal(b, &p)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exError
	}
	for i, src := range p {
		if *fMode == "parse" {
			cc.Parse(string(src), true)
			return exHeld
		}
		if c, rej := tryCompile(string(src)); c == nil {
			fmt.Fprintf(realOut, "refused: %s", rej)
			return exFail
		} else if i == 1 {
			fmt.Fprintf(realOut, "%d inputs, %d public, %d constraints\n%s", len(c.inputs), c.publics, len(c.rows), sprintRows(c.rows))
		} else {
			fmt.Fprintln(realOut, "FIRST ACCEPTED")
		}
	}
	return exHeld
}

func init() {
	register("C12",
		mk("malformed programs", "the program is refused and the one without the error accepted", 9000, 80000, genReject, runReject),
		mk("unexecuted code", "the program is refused and the one without the error accepted", 3000, 40000, genRejectDead, runReject),
		mk("arbitrary text", "more than ten tokens", 3000, 60000, genText, runText))
}
