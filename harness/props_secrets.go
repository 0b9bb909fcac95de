package main

// S05, second part: where the secrets of a setup come from.

import (
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"strconv"
	"time"

	bn "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"pgregory.net/rapid"
)

type secretCase struct {
	Src    string
	Sparse bool
	Seed   uint64
}

func genSecret(t *rapid.T) secretCase {
	for {
		c, _ := genProg(t, profile{depth: 2, stmts: 2, outs: 2, maxMuls: 8}, 1)
		if !c.Trials[0].Err {
			return secretCase{c.Src, rapid.Bool().Draw(t, "sparse"), rapid.Uint64().Draw(t, "seed")}
		}
	}
}

// secrets gives the values that identify the secrets of a setup, and some random field elements.
func secrets(src string, sparse bool) map[string]string {
	c := compileSrc(src)
	out := map[string]string{}
	if len(c.rows) > 0 && c.publics < c.n {
		pk := &newProver(c, sparse).setup.Pk
		out["alpha"] = hex.EncodeToString(pk.G1.Alpha.Marshal())
		out["beta"] = hex.EncodeToString(pk.G1.Beta.Marshal())
		out["gamma"] = hex.EncodeToString(pk.G2.Gamma.Marshal())
		out["delta"] = hex.EncodeToString(pk.G2.Delta.Marshal())
		if len(pk.G1.PowersX) > 1 {
			out["x"] = hex.EncodeToString(pk.G1.PowersX[1].Marshal())
		}
	}
	for i := 0; i < 8; i++ {
		x, err := FQ.Rand()
		if err != nil {
			panic(err)
		}
		out[fmt.Sprint("random field element ", i+1)] = x.String()
	}
	return out
}

// secretsMode is the body of a process that uses the system's randomness.
func secretsMode() int {
	var c secretCase
	b, err := os.ReadFile(*fFile)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exError
	}
	realOut.Write(mustJSON(secrets(c.Src, c.Sparse)))
	return exHeld
}

func runSecretProcs(c *secretCase, r *R) {
	f, err := os.CreateTemp("", "secrets*.json")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	f.Write(mustJSON(c))
	f.Close()
	seen := map[string]string{}
	for p := 1; p <= 2; p++ {
		code, stdout, stderr, timedOut, err := runSelf(120*time.Second, "-mode", "secrets", "-file", f.Name(), "-seed", strconv.FormatUint(*fSeed, 10))
		m := map[string]string{}
		if err != nil || timedOut || code != exHeld || json.Unmarshal([]byte(stdout), &m) != nil {
			panic(fmt.Sprintf("process %d: %v %v %d %s", p, err, timedOut, code, clip(stderr, 300)))
		}
		for _, k := range sortedKeysS(m) {
			if o, dup := seen[m[k]]; dup {
				r.Failf("%s of process %d is the same as %s", k, p, o)
			}
			seen[m[k]] = fmt.Sprintf("%s of process %d", k, p)
		}
		r.NonTrivialIf(len(m) > 8)
	}
}

func sortedKeysS(m map[string]string) []string {
	k := map[string]int{}
	for s := range m {
		k[s] = 1
	}
	return sortedKeys(k)
}

// countReader counts the bytes taken from it.
type countReader struct {
	r io.Reader
	n int
}

func (c *countReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

func runEntropy(c *secretCase, r *R) {
	cp := compileSrc(c.Src)
	if len(cp.rows) == 0 || cp.publics >= cp.n {
		return
	}
	seedCrypto(c.Seed)
	cr := &countReader{r: rand.Reader}
	rand.Reader = cr
	p := newProver(cp, c.Sparse)
	if cr.n < 5*16 {
		r.Failf("the five secrets of a setup took %d bytes from the system's source of randomness", cr.n)
	}
	_ = p
	// random elements use the whole range
	all, none := new(big.Int), new(big.Int)
	seen := map[string]bool{}
	before := cr.n
	for i := 0; i < 96; i++ {
		x, err := FQ.Rand()
		if err != nil || x.Sign() < 0 || x.Cmp(refN) >= 0 {
			r.Failf("Rand: %v %v", x, err)
		}
		if seen[x.String()] {
			r.Failf("Rand: %v for the second time", x)
		}
		seen[x.String()] = true
		all.Or(all, x)
		none.Or(none, new(big.Int).Xor(x, new(big.Int).Sub(pow2(256), big.NewInt(1))))
	}
	if cr.n-before < 96*16 {
		r.Failf("96 random field elements took %d bytes from the system's source of randomness", cr.n-before)
	}
	for b := 0; b < 200; b++ {
		if all.Bit(b) == 0 || none.Bit(b) == 0 {
			r.Failf("bit %d is the same in 96 random field elements", b)
		}
	}
	// scalars of random group elements
	for i := 0; i < 2; i++ {
		before = cr.n
		k, _, err := bn.RandomG1(rand.Reader)
		if err != nil || k.Cmp(refN) >= 0 || cr.n-before < 16 {
			r.Failf("RandomG1: %v %v, %d random bytes", k, err, cr.n-before)
		}
	}
	r.NonTrivial()
}
