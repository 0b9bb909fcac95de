package main

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"sync"
)

// detReader replaces crypto/rand.Reader, so that toxic waste and blinding values are a function of the seed.
type detReader struct {
	mu  sync.Mutex
	key [32]byte
	ctr uint64
	buf []byte
}

func (d *detReader) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := range p {
		if len(d.buf) == 0 {
			var b [40]byte
			copy(b[:], d.key[:])
			binary.LittleEndian.PutUint64(b[32:], d.ctr)
			d.ctr++
			h := sha256.Sum256(b[:])
			d.buf = h[:]
		}
		p[i] = d.buf[0]
		d.buf = d.buf[1:]
	}
	return len(p), nil
}

func seedCrypto(seed uint64) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	rand.Reader = &detReader{key: sha256.Sum256(b[:])}
}
