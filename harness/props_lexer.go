package main

// C13: the lexer cuts every text into the tokens its rules prescribe.

import (
	"strings"
	"unicode/utf8"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"pgregory.net/rapid"
)

type refTok struct {
	typ cc.TokenType
	id  string
}

var refOps = map[string]cc.TokenType{
	"=": cc.AssignmentOperatorToken, "-=": cc.AssignmentOperatorToken, "+=": cc.AssignmentOperatorToken, "*=": cc.AssignmentOperatorToken, "/=": cc.AssignmentOperatorToken,
	"-": cc.ArithmeticOperatorToken, "+": cc.ArithmeticOperatorToken, "*": cc.ArithmeticOperatorToken, "/": cc.ArithmeticOperatorToken,
	"||": cc.BooleanOperatorToken, "&&": cc.BooleanOperatorToken,
	">>": cc.BitOperatorToken, "<<": cc.BitOperatorToken,
	"==": cc.BinaryComperatorToken, "!=": cc.BinaryComperatorToken, ">": cc.BinaryComperatorToken, ">=": cc.BinaryComperatorToken, "<": cc.BinaryComperatorToken, "<=": cc.BinaryComperatorToken,
}
var refKeywords = map[string]cc.TokenType{"return": cc.RETURN, "var": cc.VARIABLE_DECLARE, "if": cc.IF, "else": cc.ELSE, "for": cc.FOR, "func": cc.FUNCTION_DEFINE, "import": cc.IMPORT, "public": cc.PUBLIC}

func refIdent(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_'
}

// refLex: the tokens of a text; ok is false if it ends in something that is no token.
func refLex(s string) (out []refTok, ok bool) {
	newline := false
	emit := func(t cc.TokenType, id string) {
		if id == "\n" {
			// consecutive line breaks are one
			if newline {
				return
			}
			newline = true
		} else {
			newline = false
		}
		out = append(out, refTok{t, id})
	}
	for i := 0; i < len(s); {
		c := s[i]
		run := func(in func(byte) bool) int {
			j := i
			for j < len(s) && in(s[j]) {
				j++
			}
			return j
		}
		switch {
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c >= '0' && c <= '9':
			j := run(func(b byte) bool { return b >= '0' && b <= '9' })
			emit(cc.NumberToken, s[i:j])
			i = j
		case strings.IndexByte("():,;\n{}[]", c) >= 0:
			emit(cc.SyntaxToken, s[i:i+1])
			i++
		case c == '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				return out, false
			}
			emit(cc.IDENTIFIER_VARIABLE, s[i+1:i+1+j])
			i += j + 2
		case c == '#':
			j := run(func(b byte) bool { return b != '\n' })
			emit(cc.CommentToken, s[i:j])
			i = j
		case refIdent(c):
			j := run(refIdent)
			w := s[i:j]
			if t, kw := refKeywords[w]; kw {
				emit(t, w)
			} else if j < len(s) && s[j] == '(' {
				emit(cc.FUNCTION_CALL, w)
			} else {
				emit(cc.IDENTIFIER_VARIABLE, w)
			}
			i = j
		default:
			if i+2 <= len(s) {
				if t, is := refOps[s[i:i+2]]; is {
					emit(t, s[i:i+2])
					i += 2
					continue
				}
			}
			t, is := refOps[s[i:i+1]]
			if !is {
				return out, false
			}
			emit(t, s[i:i+1])
			i++
		}
	}
	return out, true
}

type lexCase struct {
	S    []byte
	Sync bool
}

var lexParts = []string{"a", "x_1", "_", "_9", "Z", "return", "var", "if", "else", "for", "func", "import", "public", "returned", "iff", "Var", "0", "5", "0042", "987654321987654321987654321", "5y", "main(", "foo (", "if(", "(", ")", ":", ",", ";", "\n", "\n", "\n\n\n", "{", "}", "[", "]",
	"=", "==", "===", "!=", ">", ">=", ">>", ">>=", "<", "<=", "<<", "-", "-=", "--", "+", "+=", "++", "*", "*=", "**", "/", "/=", "//", "&&", "||", "&&&", "|||", "\"p/a.code\"", "\"\"", "\"a b\nc\"", "\"ü∑\"", "# comment", "#", "## \"x\" {", "# ü∑\xff", " ", "  ", "\t", "\r\n", "\r", "x[1]"}
var lexBad = []string{"$", "@", "!", "&", "|", ".", "'", "ä", "∑", "\xff", "\xc3", "\x00", "\"", "\"never closed", "\"\xff", "?", "~", "^", "%", "\\", "`", "\u2028", "\u00a0", "😀"}

func genLex(t *rapid.T) lexCase {
	var s string
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0:
		return lexCase{S: rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"), Sync: rapid.Bool().Draw(t, "sync")}
	case 1:
		s = rapid.StringOfN(rapid.RuneFrom([]rune("ab_01(){}[]\n \t\r\"#=<>!&|+-*/,;:fori")), 0, 60, -1).Draw(t, "text")
	case 2:
		c, _ := genProg(t, profile{depth: 2, stmts: 5, funcs: true, ctrl: true, arrays: true, equals: true, outs: 1}, 1)
		s = c.Src
		if len(s) > 0 && rapid.Bool().Draw(t, "edit") {
			i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
			p := rapid.SampledFrom(append(append([]string{""}, lexParts...), lexBad...)).Draw(t, "with")
			s = s[:i] + p + s[i+rapid.IntRange(0, min(3, len(s)-i)).Draw(t, "over"):]
		}
	default:
		n := rapid.IntRange(0, 14).Draw(t, "n")
		bad := rapid.IntRange(0, 3).Draw(t, "bad") == 0
		var b strings.Builder
		for i := 0; i < n; i++ {
			if bad && rapid.IntRange(0, 5).Draw(t, "isbad") == 0 {
				b.WriteString(rapid.SampledFrom(lexBad).Draw(t, "badpart"))
				continue
			}
			b.WriteString(rapid.SampledFrom(lexParts).Draw(t, "part"))
		}
		s = b.String()
	}
	return lexCase{S: []byte(s), Sync: rapid.Bool().Draw(t, "sync")}
}

// --- long texts: long tokens, many tokens, many lines

type lexSeg struct {
	S   string
	N   int
	Sep string
}
type lexLong struct {
	Segs []lexSeg
	Sync bool
}

var lexChars = []string{"a", "_", "7", "0", "Z9", "x_", "return", "12345678901234567890", "# ", "#c", " ", "\t", "\r\n", "\n", "\n \n", "(", "[", "{", ")(", "a,", "a=", "a\n", "a+", "=", "==", "<", "f(", "\"a\"", "for ", "var a=5\n", "a[1]+", "# c\n", "ü"}

func genLexLong(t *rapid.T) (c lexLong) {
	n := rapid.IntRange(1, 8).Draw(t, "segments")
	for i := 0; i < n; i++ {
		s := lexSeg{N: 1}
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0, 1:
			s.S = rapid.SampledFrom(lexChars).Draw(t, "chars")
			s.N = largeSize(t, []int{300, 5000, 40000}[rapid.IntRange(0, 2).Draw(t, "scale")])
		case 2:
			s.S = rapid.SampledFrom(lexParts).Draw(t, "part")
			s.N = largeSize(t, 300)
			s.Sep = rapid.SampledFrom([]string{"", " ", "\n", ","}).Draw(t, "sep")
		case 3:
			s.S = rapid.SampledFrom(lexParts).Draw(t, "part")
		}
		if i > 0 && rapid.IntRange(0, 19).Draw(t, "bad") == 0 {
			s.S = rapid.SampledFrom(lexBad).Draw(t, "badpart")
			s.N = 1
		}
		c.Segs = append(c.Segs, s)
		c.Segs = append(c.Segs, lexSeg{S: rapid.SampledFrom([]string{"", " ", "\n"}).Draw(t, "between"), N: 1})
	}
	c.Sync = rapid.Bool().Draw(t, "sync")
	return
}

func runLexLong(c *lexLong, r *R) {
	var b strings.Builder
	for _, s := range c.Segs {
		for i := 0; i < s.N; i++ {
			b.WriteString(s.S + s.Sep)
		}
	}
	r.LabelIf(b.Len() > 4096, "more than 4096 characters")
	runLex(&lexCase{[]byte(b.String()), c.Sync}, r)
}

func runLex(c *lexCase, r *R) {
	src := string(c.S)
	fail := func(f string, a ...any) {
		for i := range a {
			if s, is := a[i].(string); is {
				a[i] = clip(s, 300)
			}
		}
		r.Failf(f, a...)
	}
	want, ok := refLex(src)
	l := cc.New(src, cc.ProbablyWhitespaceState)
	reported := make(chan string, 1000)
	l.ErrorHandler = func(e string) { reported <- e }
	if c.Sync {
		l.StartSync()
	} else {
		l.Start()
	}
	var got []refTok
	for tok, done := l.NextToken(); !done; tok, done = l.NextToken() {
		got = append(got, refTok{tok.Type, tok.Identifier})
		if len(got) > len(src)+1 {
			fail("%q: more tokens than characters: %q", src, got[:10])
		}
	}
	for i := range want {
		if i >= len(got) {
			fail("%q: token %d is missing, want %q", src, i, want[i].id)
		}
		if got[i] != want[i] {
			fail("%q: token %d is %v %q, want %v %q", src, i, got[i].typ, got[i].id, want[i].typ, want[i].id)
		}
	}
	if len(got) > len(want) {
		fail("%q: additional token %v %q", src, got[len(want)].typ, got[len(want)].id)
	}
	if ok && (len(reported) > 0 || l.Err != nil) {
		fail("%q: error reported for a text made of tokens only: %v", src, l.Err)
	}
	if !ok && (len(reported) == 0 || l.Err == nil) {
		fail("%q: no error reported", src)
	}
	r.LabelIf(!ok, "not a token sequence")
	r.LabelIf(!utf8.ValidString(src), "invalid UTF-8")
	types := map[cc.TokenType]bool{}
	for _, t := range want {
		types[t.typ] = true
	}
	r.NonTrivialIf(len(types) >= 3)
}

func init() {
	register("C13",
		mk("tokens", "tokens of at least three kinds", 500000, 5000000, genLex, runLex),
		mk("long texts", "tokens of at least three kinds", 6000, 60000, genLexLong, runLexLong),
	)
}
