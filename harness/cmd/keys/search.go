//go:build go1.21

package main

import (
	"fmt"
	"math/big"
	"os"
)

// Search prints hardened indices of seedOf(0)'s root whose child key starts with 1, 2 and 3 zero bytes
// (development aid: VERIF_SEARCH=1 keys ...); the printed table is short.go.
func init() {
	if os.Getenv("VERIF_SEARCH") == "" {
		return
	}
	for _, c := range []uint32{cK1, cR1, cSM2, cBN, cBA} {
		r := rroot(seedOf(0), c)
		n := wc(c).N
		base := new(big.Int).SetBytes(r.key)
		found := [4]bool{}
		for i := uint32(0); i < 60000000 && !(found[1] && found[2] && found[3]); i++ {
			t := tweak(c, r.cc, r.key, 1<<31+i)
			v := new(big.Int).SetBytes(t[:32])
			v.Add(v, base)
			v.Mod(v, n)
			z := (256 - v.BitLen()) / 8
			if z > 0 && z < 4 && !found[z] {
				found[z] = true
				fmt.Printf("\t{0x%x, 1<<31 + %d}, // %s, %d zero bytes\n", c, i, curveName[c], z)
			}
		}
	}
	os.Exit(0)
}
