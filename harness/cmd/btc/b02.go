//go:build go1.21

package main

import (
	"fmt"
	"strings"

	. "github.com/blocktree/go-owcdrivers/zzverif/drv/btcfam"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

var spendAmounts = []uint64{100000, 1, 0xff, 0x100, 0xffffffff, 0x100000000, 2100000000000000, 1<<63 - 1, 1 << 63, 1<<64 - 1}

// name the digest must carry for its signer
func signerName(n Net, s *spend) string {
	t := nets[n.Name]
	switch s.kind {
	case "pkh":
		return b58(t.pkh, s.keys[0].h160())
	case "wrapped":
		return b58(t.sh, ref.Hash160(s.redeem))
	case "native":
		if t.hrp == "" {
			return ""
		}
		return segAddr(t.hrp, s.keys[0].h160())
	}
	return ""
}

func checkHashes(x *mc.X, a *Adapter, n Net, seg bool, t *ref.BTx, sp []*spend) []Hash {
	hs, err := a.Hashes(hx(t.Bytes()), unlocks(a, sp), seg, n)
	x.Step("hashes "+a.Name, len(hs), err)
	x.Check(err == nil, "%s refuses to hash a valid transaction: %v", a.Name, err)
	x.Check(len(hs) == len(sp), "%s: %d digests for %d inputs", a.Name, len(hs), len(sp))
	for i, s := range sp {
		w := digest(a, t, i, s)
		x.Check(strings.EqualFold(hs[i].Hash, hx(w)), "%s: input %d (%s): digest %s, consensus digest %x", a.Name, i, s.kind, hs[i].Hash, w)
		x.Step("digest", hs[i].Hash)
		if s.kind == "multi" {
			x.Check(int(hs[i].N) == s.m && len(hs[i].Multi) == len(s.keys), "%s: input %d announces %d-of-%d, want %d-of-%d", a.Name, i, hs[i].N, len(hs[i].Multi), s.m, len(s.keys))
			for k := range s.keys {
				x.Check(hs[i].Multi[k].Pubkey == hx(s.keys[k].pub), "%s: input %d names signer %s, want %x", a.Name, i, hs[i].Multi[k].Pubkey, s.keys[k].pub)
			}
			continue
		}
		x.Check(hs[i].N == 0 && !hs[i].NoNormal && len(hs[i].Multi) == 0, "%s: input %d (%s) is announced as multisignature", a.Name, i, s.kind)
		if w := signerName(n, s); !a.NoNames && w != "" {
			ok := hs[i].Addr == w
			if a.ForkID { // these drivers name signers in CashAddr form (BCH) or base58 (BSV)
				ok = ok || hs[i].Addr == ref.CashEnc("bitcoincash", 0, s.keys[0].h160()) || hs[i].Addr == strings.TrimPrefix(ref.CashEnc("bitcoincash", 0, s.keys[0].h160()), "bitcoincash:")
			}
			x.Check(ok, "%s: input %d (%s) names signer %s, want %s", a.Name, i, s.kind, hs[i].Addr, w)
		}
	}
	return hs
}

// pickSpends enumerates every assignment of output types to nin inputs
func pickSpends(x *mc.X, a *Adapter, seg bool, nin int) []*spend {
	var sp []*spend
	ks := kindsFor(a, seg, nin == 1)
	for i := 0; i < nin; i++ {
		k := mc.Pick(x, fmt.Sprintf("type%d", i), ks...)
		am := mc.PickDev(x, fmt.Sprintf("spent%d", i), spendAmounts...)
		if k == "multi" {
			ms := []key{ordinary[3*i], ordinary[3*i+1], ordinary[3*i+2]}
			if i > 0 && x.Dev(fmt.Sprintf("keys%d", i), 2) == 1 { // the same address again, or one with a key in common
				x.Note("reused")
				if sp[i-1].kind == "multi" {
					ms = sp[i-1].keys
				} else {
					ms[1] = sp[i-1].keys[0]
				}
			}
			sp = append(sp, newSpend(a, k, seg, am, 2, ms...))
			continue
		}
		ch := 1 + len(special)
		if i > 0 {
			ch++
		}
		c := x.Dev(fmt.Sprintf("key%d", i), ch)
		key := ordinary[i]
		if c > len(special) { // one key owns several of the spent outputs
			key = sp[i-1].keys[0]
			x.Note("key of input %d", i-1)
		} else if c > 0 {
			key = special[c-1]
			x.Note("%s", key.name)
		}
		sp = append(sp, newSpend(a, k, seg, am, 0, key))
	}
	return sp
}

func init() {
	mc.Register(mc.Scenario{Prop: "B02", Name: "types", Quick: 1, Thorough: 2, ShardK: 5, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		n := pickNet(x, a)
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		nin := 1 + x.Choose("ins", 3)
		sp := pickSpends(x, a, seg, nin)
		nout := 1 + x.Choose("outs", 2)
		t := baseTx(a, nin, nout)
		t.Lock = mc.PickDev(x, "lock", locks32...)
		for i := range t.In {
			t.In[i].Seq = mc.PickDev(x, fmt.Sprintf("seq%d", i), uint32(0xffffffff), 0xfffffffd, 0xfffffffe, 0, 1, 0x01020304)
			t.In[i].Vout = mc.PickDev(x, fmt.Sprintf("vout%d", i), uint32(i), 0x01020304, 0xffffffff, 256)
			t.In[i].TxID = mc.PickDev(x, fmt.Sprintf("txid%d", i), txid(i), ones(32, 0), ones(32, 0xff))
		}
		for i := range t.Out {
			t.Out[i].Value = mc.PickDev(x, fmt.Sprintf("value%d", i), amounts64...)
			t.Out[i].Script = mc.PickDev(x, fmt.Sprintf("script%d", i), t.Out[i].Script, ref.P2SH(ones(20, 3)), ref.WitProg(ones(20, 3)), ref.WitProg(ones(32, 3)), ref.Cat([]byte{0x6a}, pushOp(ones(20, 9))), ref.Cat([]byte{0x6a}, pushOp(ones(80, 9))))
		}
		checkHashes(x, a, n, seg, t, sp)
	}})
	mc.Register(mc.Scenario{Prop: "B02", Name: "counts", ShardK: 4, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		which := mc.Pick(x, "vary", "ins", "outs")
		c := mc.Pick(x, "count", 4, 16, 128, 252, 253, 254, 256)
		nin, nout := c, 1
		if which == "outs" {
			nin, nout = 2, c
		}
		ks := kindsFor(a, seg, false)
		var sp []*spend
		for i := 0; i < nin; i++ {
			k := ks[i%len(ks)]
			if k == "multi" {
				sp = append(sp, newSpend(a, k, seg, uint64(1000+i), 1, ordinary[i%5], ordinary[5+i%5]))
			} else {
				sp = append(sp, newSpend(a, k, seg, uint64(1000+i), 0, ordinary[i%16]))
			}
		}
		checkHashes(x, a, n, seg, baseTx(a, nin, nout), sp)
	}})
	mc.Register(mc.Scenario{Prop: "B02", Name: "multisig-sizes", ShardK: 4, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		if a.Zen {
			x.Outcome("no multisignature")
			return
		}
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		nk := 1 + x.Choose("n", 15)
		m := 1 + x.Choose("m", nk)
		pos := 0
		nin := 1
		if !a.SegAlways {
			nin = 2
			pos = x.Choose("position", 2)
		}
		var sp []*spend
		for i := 0; i < nin; i++ {
			if i == pos {
				sp = append(sp, newSpend(a, "multi", seg, 5000, m, ordinary[:nk]...))
			} else {
				sp = append(sp, newSpend(a, "pkh", seg, 5000, 0, ordinary[15]))
			}
		}
		if max := len(sp[pos].redeem); max > 520 && !seg {
			x.Outcome("script too large for legacy pay-to-script-hash")
			return
		}
		checkHashes(x, a, n, seg, baseTx(a, nin, 1), sp)
	}})
	mc.Register(mc.Scenario{Prop: "B02", Name: "output-scripts", ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		l := mc.Pick(x, "script-length", scriptLens...)
		pos := x.Choose("position", 2)
		sp := pickSpends(x, a, seg, 1)
		t := baseTx(a, 1, 2)
		t.Out[pos].Script = dataScript(l)
		checkHashes(x, a, n, seg, t, sp)
	}})
}

// an output script of n bytes: data, as the token payloads are
func dataScript(n int) []byte {
	switch {
	case n == 0:
		return nil
	case n == 1:
		return []byte{0x6a}
	case n <= 77:
		return ref.Cat([]byte{0x6a}, pushOp(ones(n-2, 9)))
	case n <= 258:
		return ref.Cat([]byte{0x6a, 76, byte(n - 3)}, ones(n-3, 9))
	}
	return ref.Cat([]byte{0x6a, 77, byte(n - 4), byte((n - 4) >> 8)}, ones(n-4, 9))
}

var scriptLens = []int{25, 1, 2, 22, 23, 34, 75, 76, 77, 80, 127, 128, 251, 252, 253, 254, 255, 256, 257, 520, 65535, 65536}
