//go:build go1.21

package main

import (
	"bytes"
	"encoding/hex"
	"math/bits"

	bytom "github.com/blocktree/go-owcdrivers/bytomTransaction"
	"github.com/blocktree/go-owcdrivers/zzverif/drv/chain"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

func btmScript(m int, keys []*chain.Key) []byte {
	b := []byte{0xae}
	for _, k := range keys {
		b = ref.Cat(b, []byte{0x20}, k.Pub)
	}
	return ref.Cat(b, []byte{0x50 + byte(m), 0x50 + byte(len(keys)), 0xad})
}

func uvar(v int) []byte {
	if v < 0x80 {
		return []byte{byte(v)}
	}
	return []byte{byte(v) | 0x80, byte(v >> 7)}
}

// btmSetup creates the address and an unsigned transaction spending from it (next to an ordinary input when mixed).
func btmSetup(x *mc.X, m int, keys []*chain.Key, test, mixed bool) (tx, script string, digests []string, ins []chain.BtmIn, outs []chain.BtmOut) {
	var pubs [][]byte
	for _, k := range keys {
		pubs = append(pubs, append([]byte{}, k.Pub...))
	}
	addr, script, err := bytom.CreateMultiSig(byte(m), pubs, test)
	x.Step("create multisig bytom", addr, script, err)
	x.Check(err == nil, "bytom refuses %d of %d: %v", m, len(keys), err)
	want := btmScript(m, keys)
	hrp := "bm"
	if test {
		hrp = "tm"
	}
	x.Check(script == hx(want), "bytom script of %d of %d is %s, want %x", m, len(keys), script, want)
	x.Check(addr == segAddr(hrp, ref.Sha3_256(want)), "bytom multisig address is %s, want %s", addr, segAddr(hrp, ref.Sha3_256(want)))
	prog := ref.Cat([]byte{0, 32}, ref.Sha3_256(want))
	asset := bytes.Repeat([]byte{0xff}, 32)
	ins = []chain.BtmIn{{ID: ref.Sha256([]byte("a")), Pos: 1, Asset: asset, Amount: 5000000, Prog: prog}}
	if mixed {
		ins = append([]chain.BtmIn{{ID: ref.Sha256([]byte("b")), Pos: 0, Asset: asset, Amount: 77, Prog: ref.Cat([]byte{0, 20}, ref.Hash160(keys[0].Pub))}}, ins...)
	}
	outs = []chain.BtmOut{{Prog: ref.Cat([]byte{0, 20}, ref.Hash160([]byte("to"))), Amount: 4000000}}
	var vins []bytom.Vin
	for _, in := range ins {
		vins = append(vins, bytom.Vin{SourceID: hx(in.ID), SourcePosition: in.Pos, AssetID: hx(in.Asset), Amount: in.Amount, ControlProgram: hx(in.Prog)})
	}
	tx, err = bytom.CreateEmptyRawTransaction(vins, []bytom.Vout{{Address: segAddr(hrp, outs[0].Prog[2:]), Amount: outs[0].Amount}}, 0, test)
	x.Check(err == nil && tx == hx(chain.BtmTx(ins, outs, 0, nil)), "bytom multisig spend: error %v, unsigned transaction %s", err, tx)
	digests = chain.BtmDigests(ins, outs, 0)
	return
}

func btmRun(x *mc.X, keys []*chain.Key, m int, signers int, test, mixed bool, corrupt string) {
	n := len(keys)
	tx, script, dg, ins, outs := btmSetup(x, m, keys, test, mixed)
	hs, err := bytom.CreateRawTransactionHashForSig(tx, test)
	x.Check(err == nil && len(hs) == len(ins), "bytom: %d digests, error %v", len(hs), err)
	var wit [][]byte
	for i := range hs {
		x.Check(hs[i].Hash == dg[i], "bytom: digest %d is %s, want %s", i, hs[i].Hash, dg[i])
	}
	if mixed {
		h, _ := hex.DecodeString(dg[0])
		s := chain.Craft(keys[0], h, "plain")
		hs[0].Normal.SigPub = bytom.SigPub{Signature: s, Pubkey: keys[0].Pub}
		wit = append(wit, ref.Cat([]byte{2, 0x40}, s, []byte{0x20}, keys[0].Pub))
	}
	at := len(hs) - 1
	x.Check(hs[at].IsMultiSig(), "bytom: multisig input not recognised")
	x.Check(hs[at].PadMultiSig(script) == nil, "bytom: own script refused")
	x.Check(int(hs[at].NRequired) == m && len(hs[at].Multi) == n, "bytom: script read as %d of %d", hs[at].NRequired, len(hs[at].Multi))
	h, _ := hex.DecodeString(dg[at])
	var sigs [][]byte
	first := true
	for i := range keys {
		x.Check(hs[at].Multi[i].Pubkey == hx(keys[i].Pub), "bytom: signer %d announced as %s", i, hs[at].Multi[i].Pubkey)
		if signers>>i&1 == 0 {
			continue
		}
		s := chain.Craft(keys[i], h, "plain")
		if first && corrupt != "" {
			first = false
			switch corrupt {
			case "stranger":
				s = chain.Craft(chain.KeyOf(chain.Ed, "stranger"), h, "plain")
			case "other-digest":
				s = chain.Craft(keys[i], ref.Sha256(h), "plain")
			case "repeated":
				j := i + 1
				for j < n && signers>>j&1 == 0 {
					j++
				}
				if j == n {
					return
				}
				s = chain.Craft(keys[j], h, "plain")
			}
		}
		hs[at].Multi[i].SigPub = bytom.SigPub{Signature: s, Pubkey: keys[i].Pub}
		if len(sigs) < m {
			sigs = append(sigs, s)
		}
	}
	fin, err := bytom.InsertSignatureIntoEmptyTransaction(tx, hs)
	x.Step("insert bytom", fin, err)
	if bits.OnesCount(uint(signers)) < m {
		x.Check(err != nil || !bytom.VerifyRawTransaction(fin), "bytom: %d of %d completed by %d signers", m, n, bits.OnesCount(uint(signers)))
		return
	}
	if corrupt != "" {
		x.Check(err != nil || !bytom.VerifyRawTransaction(fin), "bytom: %d of %d verifies with a wrong signature (%s)", m, n, corrupt)
		return
	}
	x.Check(err == nil, "bytom: %d of %d with signers %b is refused: %v", m, n, signers, err)
	sc, _ := hex.DecodeString(script)
	w := []byte{byte(m + 1)}
	for _, s := range sigs {
		w = ref.Cat(w, []byte{0x40}, s)
	}
	wit = append(wit, ref.Cat(w, uvar(len(sc)), sc))
	want := hx(chain.BtmTx(ins, outs, 0, wit))
	x.Check(fin == want, "bytom: completed %d of %d is\n   %s\n  want\n   %s", m, n, clip(fin), clip(want))
	x.Check(bytom.VerifyRawTransaction(fin), "bytom: completed %d of %d with signers %b does not verify", m, n, signers)
}

func edKeys(n int) []*chain.Key {
	var r []*chain.Key
	for i := 0; i < n; i++ {
		r = append(r, chain.KeyN(chain.Ed, i))
	}
	return r
}

func init() {
	mc.Register(mc.Scenario{Prop: "B05", Name: "bytom", ShardK: 3, Fn: func(x *mc.X) {
		max := 4
		if x.Deep {
			max = 6
		}
		n := 1 + x.Choose("n", max)
		m := 1 + x.Choose("m", n)
		signers := x.Choose("signers", 1<<n)
		corrupt := mc.Pick(x, "signature", "", "stranger", "other-digest", "repeated")
		if corrupt != "" && bits.OnesCount(uint(signers)) != m {
			return
		}
		btmRun(x, edKeys(n), m, signers, x.Choose("testnet", 2) == 1, x.Choose("mixed", 2) == 1, corrupt)
	}})
	mc.Register(mc.Scenario{Prop: "B05", Name: "bytom-large", ShardK: 3, Fn: func(x *mc.X) {
		n := mc.Pick(x, "n", 7, 8, 15, 16)
		m := 1 + x.Choose("m", n)
		all := 1<<n - 1
		signers := mc.Pick(x, "signers", 1<<m-1, all, (all>>(n-m))<<(n-m), 1<<(m-1)-1)
		btmRun(x, edKeys(n), m, signers, false, false, "")
	}})
	mc.Register(mc.Scenario{Prop: "B05", Name: "bytom-refused", ShardK: 2, Fn: func(x *mc.X) {
		n := mc.Pick(x, "n", 0, 1, 2, 3, 16, 17, 20, 32, 255, 256, 257)
		m := mc.Pick(x, "m", 0, 1, 2, 3, 4, 15, 16, 17, 18, 255)
		kind := mc.Pick(x, "keys", "good", "short", "long", "nil")
		var pubs [][]byte
		for i := 0; i < n; i++ {
			pubs = append(pubs, append([]byte{}, chain.KeyN(chain.Ed, i%16).Pub...))
		}
		if n > 0 {
			switch kind {
			case "short":
				pubs[n-1] = pubs[n-1][:31]
			case "long":
				pubs[n-1] = append(pubs[n-1], 0)
			case "nil":
				pubs[n-1] = nil
			}
		}
		a, s, err := bytom.CreateMultiSig(byte(m), pubs, false)
		x.Step("create multisig bytom", a, s, err)
		ok := n >= 1 && n <= 16 && m >= 1 && m <= n && kind == "good"
		x.Check((err == nil) == ok, "bytom: %d of %d keys (%s): address %q, error %v", m, n, kind, a, err)
	}})
}
