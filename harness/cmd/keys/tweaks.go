//go:build go1.21

package main

import (
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"fmt"

	kc "github.com/blocktree/go-owcdrivers/owkeychain"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

// The rare values inside one derivation step: each kind is a predicate over the step's hash (most significant byte of
// the number first) or over the child, and the first index that satisfies it is derived in every way.
var tweakKinds = []struct {
	name  string
	hash  func(il, cc []byte) bool
	child func(c *rkey) bool
}{
	{name: "one leading zero byte", hash: func(il, cc []byte) bool { return il[0] == 0 && il[1] != 0 }},
	{name: "two leading zero bytes", hash: func(il, cc []byte) bool { return il[0] == 0 && il[1] == 0 }},
	{name: "seven leading zero bits", hash: func(il, cc []byte) bool { return il[0] == 1 }},
	{name: "leading ones", hash: func(il, cc []byte) bool { return il[0] == 0xff }},
	{name: "leading 72", hash: func(il, cc []byte) bool { return il[0] == 0x72 }},
	{name: "leading 73", hash: func(il, cc []byte) bool { return il[0] == 0x73 }},
	{name: "trailing zero byte", hash: func(il, cc []byte) bool { return il[len(il)-1] == 0 }},
	{name: "chain code with leading zero", hash: func(il, cc []byte) bool { return cc[0] == 0 }},
	{name: "chain code with two leading zeros", hash: func(il, cc []byte) bool { return cc[0] == 0 && cc[1] == 0 }},
	{name: "chain code with trailing zero", hash: func(il, cc []byte) bool { return cc[31] == 0 }},
	{name: "child public key with leading zero", child: func(c *rkey) bool {
		p := pubOf(c.curve, c.key)
		if isEd(c.curve) {
			return p[31]&0x7f == 0
		}
		if isBls(c.curve) {
			return p[1] == 0
		}
		return p[1] == 0
	}},
	{name: "child public key with trailing zero", child: func(c *rkey) bool { p := pubOf(c.curve, c.key); return p[len(p)-1] == 0 }},
	{name: "fingerprint with leading zero", child: func(c *rkey) bool { return ref.Hash160(pubOf(c.curve, c.key))[0] == 0 }},
	{name: "fingerprint with trailing zero", child: func(c *rkey) bool { return ref.Hash160(pubOf(c.curve, c.key))[3] == 0 }},
	{name: "child private key with leading zero", child: func(c *rkey) bool { return c.key[0] == 0 || isEd(c.curve) && c.key[31] == 0 }},
	{name: "child private key with trailing zero", child: func(c *rkey) bool { return c.key[31] == 0 }},
}

var tweakIdx = map[string]int64{}

// tweakIndex is the first index (after from) of the kind, or -1.
func tweakIndex(r *rkey, kind int, hardened bool) int64 {
	id := fmt.Sprint(r.curve, kind, hardened)
	if v, ok := tweakIdx[id]; ok {
		return v
	}
	t := tweakKinds[kind]
	data := r.key
	base := uint32(1 << 31)
	if !hardened {
		data, base = pubOf(r.curve, r.key), 0
	}
	limit := uint32(400000)
	if t.child != nil {
		limit = 900
		if t.name == "child private key with leading zero" {
			limit = 4000
		}
	}
	found := int64(-1)
	for i := uint32(0); i < limit; i++ {
		if t.child != nil {
			c, err := r.child(base + i)
			if err != nil || !t.child(c) {
				continue
			}
		} else {
			m := hmac.New(sha512.New, r.cc)
			if len(data) == 32 {
				m.Write([]byte{0})
			}
			m.Write(data)
			var b [4]byte
			binary.BigEndian.PutUint32(b[:], base+i)
			m.Write(b[:])
			h := m.Sum(nil)
			il := h[:32]
			if isEd(r.curve) {
				il = ref.Rev(h[:28])
			}
			if !t.hash(il, h[32:]) {
				continue
			}
		}
		found = int64(base + i)
		break
	}
	tweakIdx[id] = found
	return found
}

func init() {
	mc.Register(mc.Scenario{Prop: "K01", Name: "rare-values", ShardK: 3, Fn: func(x *mc.X) {
		c := pickCurve(x)
		kind := x.Choose("kind", len(tweakKinds))
		x.Note("%s", tweakKinds[kind].name)
		hard := x.Choose("hardened", 2) == 1
		s := seedOf(0)
		r := rroot(s, c)
		x.Beat()
		i := tweakIndex(r, kind, hard)
		if i < 0 {
			x.Outcome("no such index: " + curveName[c] + " " + tweakKinds[kind].name)
			return
		}
		k, err := kc.InitRootKeyFromSeed(append([]byte{}, s...), c)
		same(x, "root", k, err, r)
		k, r = step(x, k, r, uint32(i))
		next := mc.Pick(x, "next", uint32(0), uint32(1<<31))
		step(x, k, r, next)
	}})
}
