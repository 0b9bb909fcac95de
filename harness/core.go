package main

// Framework: a property is a list of sub-checks. A sub-check has a rapid generator producing a plain,
// JSON-serialisable case and a Run function (the oracle) that needs nothing but the case.
// Workers (separate processes, one per shard) run rapid; a failing case is shrunk by rapid and written
// as JSON; the replay mode runs the oracle on that JSON without rapid.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

type R struct {
	labels     map[string]bool
	nontrivial bool
}

func (r *R) Label(s string) { r.labels[s] = true }
func (r *R) LabelIf(b bool, s string) {
	if b {
		r.labels[s] = true
	}
}
func (r *R) NonTrivial()         { r.nontrivial = true }
func (r *R) NonTrivialIf(b bool) { r.nontrivial = r.nontrivial || b }

type failure struct{ msg string }

func (r *R) Failf(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

type Sub struct {
	Name     string
	Rule     string
	Quick    int // number of cases over all shards
	Thorough int
	MaxShard int  // 0: no limit on the number of shards
	Isolated bool // every case runs in a process of its own (the code under test may crash or hang it)
	Gen      func(t *rapid.T) any
	New      func() any
	Run      func(c any, r *R)
}

func mk[T any](name, rule string, quick, thorough int, gen func(t *rapid.T) T, run func(c *T, r *R)) Sub {
	return Sub{Name: name, Rule: rule, Quick: quick, Thorough: thorough,
		Gen: func(t *rapid.T) any { c := gen(t); return &c },
		New: func() any { return new(T) },
		Run: func(c any, r *R) { run(c.(*T), r) },
	}
}
func (s Sub) isolated() Sub    { s.Isolated = true; return s }
func (s Sub) shards(n int) Sub { s.MaxShard = n; return s }

type Prop struct {
	ID   string
	Subs []Sub
}

var props []Prop

func register(id string, subs ...Sub) { props = append(props, Prop{id, subs}) }

func findProp(id string) *Prop {
	for i := range props {
		if props[i].ID == id {
			return &props[i]
		}
	}
	return nil
}
func (p *Prop) sub(name string) *Sub {
	for i := range p.Subs {
		if p.Subs[i].Name == name {
			return &p.Subs[i]
		}
	}
	return nil
}

// Replay is the file format of a counterexample.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Message  string          `json:"message,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// runCase executes the oracle on one case; "" means it held.
func runCase(s *Sub, c any) (msg string, r *R) {
	r = &R{labels: map[string]bool{}}
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(failure); ok {
				msg = f.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(string(debug.Stack())))
		}
	}()
	s.Run(c, r)
	return "", r
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

func hashBytes(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

// Stats of one shard of one sub-check.
type Stats struct {
	Evals   int            `json:"evals"`
	NonTriv []uint64       `json:"nontriv"`
	Labels  map[string]int `json:"labels"`
	Samples []string       `json:"samples"`
	Fail    *Replay        `json:"fail,omitempty"`
	Err     string         `json:"err,omitempty"`
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness: cannot serialise case:", err)
		os.Exit(3)
	}
	return b
}
