package main

// C11: the text of a program matters only up to its tokens, the names only up to renaming.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

type fmtCase struct {
	A, B string
	Libs []string // contents of the imported files; the path of the k-th replaces @LIBk@ in B and in the files
	In   []string
	Err  bool
	Feat []string
}

func randomLayout(t *rapid.T, parens, spaces, comments, zeros bool, names map[string]string) *layout {
	d := func(k int, l string) int { return rapid.IntRange(0, k-1).Draw(t, l) }
	crlf := d(6, "crlf") == 0
	eol := func() string {
		if crlf {
			return "\r\n"
		}
		return "\n"
	}
	return &layout{
		paren: func() int {
			if !parens {
				return 0
			}
			switch d(40, "paren") {
			case 39:
				return 2 + d(11, "deep")
			case 0, 1, 2, 3, 4, 5, 6:
				return 1
			}
			return 0
		},
		num: func(s string) string {
			if zeros && d(4, "zeros") == 0 {
				return strings.Repeat("0", 1+d(3, "nzeros")) + s
			}
			return s
		},
		sp: func() string {
			if !spaces {
				return " "
			}
			return []string{"", " ", "", " ", "\t", "  ", " \t "}[d(7, "sp")]
		},
		nl: func() string {
			s := ""
			if spaces {
				s = []string{"", "", " ", "\t "}[d(4, "trail")]
			}
			if comments && d(3, "comment") == 0 {
				s += []string{"#", "# a comment", "#var x = 3", "#}", "# \"quoted (", "#ünïcode ∑", "##"}[d(7, "text")]
			}
			s += eol()
			for spaces && d(4, "blank") == 0 {
				s += eol()
			}
			if comments && d(8, "commentline") == 0 {
				s += "  # full line }" + eol()
			}
			if spaces {
				s += []string{"", "", "\t", "    ", " "}[d(5, "indent")]
			}
			return s
		},
		name: func(s string) string {
			if n, ok := names[s]; ok {
				return n
			}
			return s
		},
	}
}

// identifiers lists the names a program declares.
func (p *program) identifiers() []string {
	seen := map[string]bool{}
	var out []string
	add := func(n string) {
		if i := strings.IndexByte(n, '['); i >= 0 {
			n = n[:i]
		}
		if n != "" && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	var walk func(b []*st)
	walk = func(b []*st) {
		for _, s := range b {
			switch s.k {
			case "var", "arr", "func":
				add(s.n)
			}
			for _, q := range s.params {
				add(q)
			}
			walk(s.body)
			for _, a := range s.alts {
				walk(a.body)
			}
		}
	}
	walk(p.top)
	for _, q := range p.main.params {
		add(q)
	}
	walk(p.main.body)
	return out
}

var renameTo = []string{"a", "b", "ab", "aB", "A", "x_", "x__1", "v0", "var1", "returned", "publicKey", "importX", "fors", "elseIf", "function", "funcs", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz", "equals", "split", "BREAKS", "mainn", "Main", "global", "if_", "e1", "n", "O", "l1", "a1", "a11", "a2", "b1", "x1", "x11", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz1"}

func genFmt(t *rapid.T) fmtCase {
	pr := profile{depth: 2, stmts: 6, div: true, funcs: true, hof: true, ctrl: true, arrays: true, equals: true, shadow: true, outs: 2}
	pc, prog := genProg(t, pr, 1)
	c := fmtCase{A: pc.Src, In: pc.Trials[0].In, Err: pc.Trials[0].Err}
	on := func(l string) bool { return rapid.Bool().Draw(t, l) }
	feat := func(b bool, s string) bool {
		if b {
			c.Feat = append(c.Feat, s)
		}
		return b
	}
	names := map[string]string{}
	if feat(on("rename"), "renamed") {
		ids := prog.identifiers()
		to := rapid.Permutation(renameTo).Draw(t, "names")
		for i, id := range ids {
			if i < len(to) {
				names[id] = to[i]
			} else {
				names[id] = fmt.Sprintf("w%d", i)
			}
		}
	}
	lay := randomLayout(t, feat(on("parens"), "redundant brackets"), feat(on("spaces"), "white space"), feat(on("comments"), "comments"), feat(on("zeros"), "leading zeros"), names)
	q := &program{main: prog.main, publics: prog.publics, top: append([]*st{}, prog.top...), mainPos: prog.mainPos, inputs: prog.inputs}
	if feat(on("funcform"), "function forms") {
		flip(t, q.main.body)
		for _, s := range q.top {
			flip(t, s.body)
		}
	}
	if feat(on("unused"), "unused function") {
		n := "unusedFunction_"
		f := &st{k: "func", n: n, params: []string{"p_"}, body: []*st{{k: "var", n: "q_", e: bin("*", vr("p_"), vr("p_"))}, {k: "equal", es: []*ex{vr("q_"), numi(3)}}, {k: "ret", e: vr("q_")}}}
		if on("unusedtop") {
			q.top = append(q.top, f)
		} else {
			q.main = &st{params: q.main.params, body: append([]*st{f}, q.main.body...)}
		}
	}
	if feat(on("mainpos"), "main moved") {
		q.mainPos = rapid.IntRange(0, len(q.top)).Draw(t, "mainpos")
	}
	if feat(rapid.IntRange(0, 2).Draw(t, "import") == 0, "import") {
		// declarations, or statements of main, go to files of their own
		var top, body []string
		for _, x := range q.main.body {
			body = append(body, lay.stmt(x))
		}
		head := "func main(" + lay.params(q.main.params) + "){" + lay.nl()
		if q.publics != nil {
			head += "public{" + lay.list(q.publics) + "}" + lay.nl()
		}
		m := ""
		if feat(on("importbody"), "import in main") {
			m = head + pack(t, &c, lay, body, 1) + "}" + lay.nl()
		} else {
			m = head + strings.Join(body, "") + "}" + lay.nl()
		}
		for i, x := range q.top {
			if i == q.mainPos {
				top = append(top, m)
			}
			top = append(top, lay.stmt(x))
		}
		if q.mainPos >= len(q.top) {
			top = append(top, m)
		}
		c.B = lay.nl() + pack(t, &c, lay, top, 0)
	} else {
		c.B = lay.nl() + q.render(lay)
	}
	if on("trailing") {
		c.B += lay.nl() + lay.nl()
	} else {
		c.B = strings.TrimRight(c.B, " \t\r\n")
	}
	if strings.HasSuffix(c.A, "\n") && on("noeol") {
		c.A = strings.TrimRight(c.A, "\n")
	}
	return c
}

// pack renders the pieces one after another, some runs of them (also empty ones) as the import of a file that holds them.
func pack(t *rapid.T, c *fmtCase, lay *layout, pieces []string, depth int) string {
	d := func(k int, l string) int { return rapid.IntRange(0, k-1).Draw(t, l) }
	s := ""
	for i := 0; i < len(pieces); {
		if depth > 2 || d(3, "file") > 0 {
			s += pieces[i]
			i++
			continue
		}
		n := i + d(len(pieces)-i+1, "pieces")
		text := pack(t, c, lay, pieces[i:n], depth+1)
		switch d(4, "end") {
		case 0:
			text = strings.TrimRight(text, " \t\r\n")
		case 1:
			text += "\n\n"
		case 2:
			text += "# end"
		}
		if d(40, "chain") == 0 { // files that only import the next
			for k := d(40, "links"); k > 0; k-- {
				c.Libs = append(c.Libs, text)
				text = fmt.Sprintf("import \"@LIB%d@\"", len(c.Libs)-1) + "\n"
			}
		}
		s += fmt.Sprintf("import \"@LIB%d@\"", len(c.Libs)) + "\n"
		c.Libs = append(c.Libs, text)
		if n == i { // an empty file
			s += pieces[i]
			n++
		}
		i = n
	}
	return s
}

// flip renders local function definitions in either of the two forms.
func flip(t *rapid.T, b []*st) {
	for _, s := range b {
		if s.k == "func" {
			s.asVar = rapid.Bool().Draw(t, "asvar")
		}
		flip(t, s.body)
		for _, a := range s.alts {
			flip(t, a.body)
		}
	}
}

func rowKey(x row) string {
	l, r := fmt.Sprint(x.L), fmt.Sprint(x.R)
	if l > r {
		l, r = r, l
	}
	return l + "*" + r + "+g^" + fmt.Sprint(x.E) + "=" + fmt.Sprint(x.O)
}

func sameRows(r *R, a, b []row, what string) {
	if len(a) != len(b) {
		r.Failf("%s: %d constraints, then %d", what, len(a), len(b))
	}
	for i := range a {
		if rowKey(a[i]) != rowKey(b[i]) {
			r.Failf("%s: constraint %d is %v, then %v", what, i, a[i], b[i])
		}
	}
}

func runFmt(c *fmtCase, r *R) {
	src := c.B
	if len(c.Libs) > 0 {
		dir, err := os.MkdirTemp("", "verif-import")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		path := func(text string) string {
			for k := range c.Libs {
				text = strings.ReplaceAll(text, fmt.Sprintf("@LIB%d@", k), filepath.Join(dir, fmt.Sprintf("lib %d.code", k)))
			}
			return text
		}
		for k, text := range c.Libs {
			if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("lib %d.code", k)), []byte(path(text)), 0o600); err != nil {
				panic(err)
			}
		}
		src = path(src)
	}
	for _, f := range c.Feat {
		r.Label(f)
	}
	a, rejA := tryCompile(c.A)
	b, rejB := tryCompile(src)
	if (a == nil) != (b == nil) {
		r.Failf("rejected: %q, rewritten: %q", rejA, rejB)
	}
	if a == nil {
		if !c.Err {
			r.Failf("rejected: %s", rejA)
		}
		return
	}
	if len(a.inputs) != len(b.inputs) || a.publics != b.publics || a.n != b.n {
		r.Failf("%d inputs, %d public, %d wires; rewritten %d, %d, %d", len(a.inputs), a.publics, a.n, len(b.inputs), b.publics, b.n)
	}
	sameRows(r, a.rows, b.rows, "rewritten program")
	in := bigs(c.In)
	if !c.Err {
		wa, wb := checkSat(r, a, in, "program"), checkSat(r, b, in, "rewritten program")
		if !eqMod(wa, wb) {
			r.Failf("witness %v, rewritten %v", wa, wb)
		}
	}
	r.NonTrivialIf(c.A != c.B && len(a.rows) > 1 && len(c.Feat) > 0)
}

// --- files imported more than once

// genAgain makes a program of statements that occur several times, and the same with imports of files that hold them.
func genAgain(t *rapid.T) (c fmtCase) {
	d := func(k int, l string) int { return rapid.IntRange(0, k-1).Draw(t, l) }
	pool := []string{"x = x*a\n", "x = x*b+3\n", "y = y*x\n", "y = x-y*a\n", "x = f(x,y)\n", "equal(x*a,a*x)\n", "y = y*y\n", "x = x+y\n", "if 1<2 {\nx = x*y\n}else{\ny = y*a\n}\n", "x = x*a\ny = y*b\n"}
	at := map[string]int{} // the file of a text
	imp := func(text string) string {
		k, ok := at[text]
		if !ok {
			k = len(c.Libs)
			at[text] = k
			c.Libs = append(c.Libs, text)
		}
		return fmt.Sprintf("import \"@LIB%d@\"\n", k)
	}
	counters := 0
	var items func(depth int) (plain, with string)
	items = func(depth int) (plain, with string) {
		for n := 1 + d(6, "items"); n > 0; n-- {
			p, w := "", ""
			switch k := d(8, "item"); {
			case k == 0 && depth < 2: // a group of its own file
				p, w = items(depth + 1)
			case k == 1 && depth < 2:
				p, w = items(depth + 1)
				v := fmt.Sprintf("k%d", counters)
				counters++
				m := d(4, "rounds")
				h := fmt.Sprintf("var %s = 0\nfor( %s<%d; %s=%s+1){\n", v, v, m, v, v)
				if strings.Contains(p, "var ") {
					continue // a loop would declare its counters again
				}
				p, w = h+p+"}\n", h+w+"}\n"
			default:
				p = rapid.SampledFrom(pool[:3+d(len(pool)-2, "of")]).Draw(t, "piece")
				w = p
			}
			if d(3, "imported") > 0 {
				w = imp(w)
			}
			plain, with = plain+p, with+w
		}
		return
	}
	plain, with := items(0)
	a := "func f(u,v){\nvar x = u*v\n"
	fa, fb := "", ""
	if d(2, "infunc") == 0 {
		fa = "x = x*u\n"
		fb = fa
		if d(2, "fimp") == 0 {
			fb = imp(fa)
		}
		if d(2, "twice") == 0 {
			fa, fb = fa+fa, fb+fb
		}
	}
	head := func(f, m string) string {
		return a + f + "return x\n}\nfunc main(a,b){\nvar x = a*b\nvar y = x+a\n" + m + "return x*y\n}\n"
	}
	c.A, c.B = head(fa, plain), head(fb, with)
	c.In = []string{genField(t, "a").String(), genField(t, "b").String()}
	if strings.Count(c.B, "import") >= 2 {
		c.Feat = append(c.Feat, "several imports")
	}
	return
}

func init() {
	register("C11",
		mk("rewritten programs", "at least one kind of rewriting that changed the text, and more than one constraint", 40000, 250000, genFmt, runFmt),
		mk("files imported again", "several imports and more than one constraint", 4000, 40000, genAgain, runFmt),
	)
}
