package main

import (
	"math/big"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
)

func treeToPoly(t *utils.AvlTree) poly {
	p := poly{}
	for _, e := range t.DecendingNodes() {
		p.add(uint64(e.Key), e.Value)
	}
	return p
}
func polyToTree(p poly) *utils.AvlTree {
	t := utils.NewAvlTree()
	for k := uint64(0); k <= uint64(p.deg()+1); k++ {
		if v, ok := p[k]; ok {
			t.Insert(uint(k), new(big.Int).Set(v))
		}
		if k > 1<<20 {
			break
		}
	}
	return t
}
