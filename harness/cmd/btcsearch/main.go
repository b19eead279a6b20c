//go:build go1.21

// Offline helper (not part of any check): finds entropy seeds for which the
// library's secp256k1 signer yields short s values.
package main

import (
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"strconv"

	"github.com/blocktree/go-owcdrivers/zzverif/ref"
	"github.com/blocktree/go-owcrypt"
)

type det struct {
	key [32]byte
	ctr uint64
	buf []byte
}

func (d *det) Read(p []byte) (int, error) {
	for i := range p {
		if len(d.buf) == 0 {
			var b [40]byte
			copy(b[:32], d.key[:])
			binary.BigEndian.PutUint64(b[32:], d.ctr)
			d.ctr++
			s := sha256.Sum256(b[:])
			d.buf = s[:]
		}
		p[i] = d.buf[0]
		d.buf = d.buf[1:]
	}
	return len(p), nil
}

func main() {
	a, _ := strconv.Atoi(os.Args[1])
	b, _ := strconv.Atoi(os.Args[2])
	curve := uint32(owcrypt.ECC_CURVE_SECP256K1)
	n := ref.K1.N
	if len(os.Args) > 3 && os.Args[3] == "r1" {
		curve = uint32(owcrypt.ECC_CURVE_SECP256R1)
		n = ref.R1.N
	}
	key := sha256.Sum256([]byte("signer"))
	hash := sha256.Sum256([]byte("digest"))
	lim := 240
	if len(os.Args) > 4 {
		lim, _ = strconv.Atoi(os.Args[4])
	}
	half := new(big.Int).Rsh(n, 1)
	for i := a; i < b; i++ {
		d := &det{key: sha256.Sum256([]byte(fmt.Sprintf("s%d", i)))}
		crand.Reader = d
		sig, _, _ := owcrypt.Signature(key[:], nil, hash[:], curve)
		s := new(big.Int).SetBytes(sig[32:])
		high := s.Cmp(half) > 0
		if high {
			s.Sub(n, s)
		}
		r := new(big.Int).SetBytes(sig[:32])
		if s.BitLen() <= lim || r.BitLen() <= lim {
			fmt.Println(i, "rbits", r.BitLen(), "sbits", s.BitLen(), "high", high)
		}
	}
}
