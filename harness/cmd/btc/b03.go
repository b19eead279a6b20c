//go:build go1.21

package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	. "github.com/blocktree/go-owcdrivers/zzverif/drv/btcfam"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

// shapes of the two signature values as 32-byte strings
var sigShapes = []string{"any", "r-high", "r-low", "r-zero-high", "r-zero-low", "r-short", "s-zero-high", "s-zero-low", "s-40", "s-high", "s-high-zero"}

func shapeOK(sig []byte, shape string) bool {
	r, s := sig[:32], sig[32:]
	switch shape {
	case "r-high":
		return r[0] >= 0x80
	case "r-low":
		return r[0] < 0x80 && r[0] > 0
	case "r-zero-high":
		return r[0] == 0 && r[1] >= 0x80
	case "r-zero-low":
		return r[0] == 0 && r[1] < 0x80 && r[1] > 0
	case "s-zero-high":
		return s[0] == 0 && s[1] >= 0x80
	case "s-zero-low":
		return s[0] == 0 && s[1] < 0x80
	case "s-40":
		return s[0] >= 0x40
	}
	return true
}

// signShape: the first signature in a fixed nonce order that has the shape
func signShape(x *mc.X, d *big.Int, h []byte, shape string) []byte {
	switch shape {
	case "r-short":
		return ref.FastSign(d, ref.ShortR, h)
	case "s-zero-zero":
		for i := 0; i < 600000; i++ {
			if g := ref.FastSign(d, new(big.Int).Add(nonce, big.NewInt(int64(i))), h); g[32] == 0 && g[33] == 0 && g[34] < 0x80 {
				return g
			}
		}
	case "s-high": // the other root: as valid under consensus, although not relayed by default
		g := signShape(x, d, h, "s-zero-low")
		return ref.Cat(g[:32], ref.Pad(new(big.Int).Sub(ref.K1.N, new(big.Int).SetBytes(g[32:])), 32))
	case "s-high-zero":
		g := signShape(x, d, h, "r-zero-high")
		return ref.Cat(g[:32], ref.Pad(new(big.Int).Sub(ref.K1.N, new(big.Int).SetBytes(g[32:])), 32))
	}
	for i := 0; i < 8000; i++ {
		if g := ref.FastSign(d, nonceN(i), h); shapeOK(g, shape) {
			return g
		}
	}
	x.Outcome("no signature of shape " + shape)
	return ref.FastSign(d, nonce, h)
}

func evalAll(a *Adapter, t *ref.BTx, sp []*spend, highS bool) error {
	c := chainOf(a)
	c.AllowHighS = highS // a signature is merged as the caller made it
	if len(t.In) != len(sp) {
		return fmt.Errorf("%d inputs for %d spent outputs", len(t.In), len(sp))
	}
	for i, s := range sp {
		if err := c.Eval(t, i, s.lock, s.amount); err != nil {
			return fmt.Errorf("input %d (%s): %v", i, s.kind, err)
		}
	}
	return nil
}

func checkFinal(x *mc.X, a *Adapter, n Net, seg bool, final string, want *ref.BTx, sp []*spend, highS ...bool) {
	b, err := hex.DecodeString(final)
	x.Check(err == nil, "%s: merged transaction is not hex", a.Name)
	t, perr := ref.ParseBTx(b)
	x.Check(perr == nil, "%s: the network cannot parse the merged transaction (%v): %s", a.Name, perr, clip(final))
	sameContent(x, a.Name+" merged", t, want)
	if e := evalAll(a, t, sp, len(highS) > 0 && highS[0]); e != nil {
		x.Fail("%s: the network rejects the completed transaction: %v\n   %s", a.Name, e, clip(final))
	}
	ok := a.Verify(final, unlocks(a, sp), seg, n)
	x.Step("verify "+a.Name, ok)
	x.Check(ok, "%s: the driver does not verify a transaction the network accepts: %s", a.Name, clip(final))
}

func init() {
	history := func(x *mc.X, maxIn int, a *Adapter) {
		n := pickNetDev(x, a)
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		nin := 1 + x.Choose("ins", maxIn)
		sp := pickSpends(x, a, seg, nin)
		nout := 1 + x.Dev("outs", 2)
		var ids [][]byte
		var vs []uint32
		for i := 0; i < nin; i++ {
			ids = append(ids, txid(i))
			vs = append(vs, uint32(i))
		}
		var os []out
		ks := addrKinds(a, n)
		for i := 0; i < nout; i++ {
			os = append(os, out{mc.PickDev(x, fmt.Sprintf("kind%d", i), ks...), ref.Sha256([]byte{byte(i)}), uint64(1000 + i)})
		}
		r, t := makeReq(a, n, ids, vs, os, mc.PickDev(x, "lock", 0, uint32(500000), 0xffffffff), x.Dev("replaceable", 2) == 1)
		tx, err := a.Create(r)
		x.Step("create "+a.Name, tx, err)
		x.Check(err == nil, "%s refuses a valid request: %v", a.Name, err)
		hs, err := a.Hashes(tx, unlocks(a, sp), seg, n)
		x.Check(err == nil && len(hs) == nin, "%s: %d digests, error %v", a.Name, len(hs), err)
		high := false
		shapes := sigShapes
		if nin == 1 { // costly to find
			shapes = append(append([]string{}, shapes...), "s-zero-zero")
		}
		for i, s := range sp {
			h, e := hex.DecodeString(hs[i].Hash)
			x.Check(e == nil && len(h) == 32, "%s: digest %q", a.Name, hs[i].Hash)
			if s.kind == "multi" {
				x.Check(len(hs[i].Multi) == len(s.keys), "%s: %d signers announced", a.Name, len(hs[i].Multi))
				for k := 0; k < s.m; k++ {
					sh := mc.PickDev(x, fmt.Sprintf("shape%d.%d", i, k), shapes...)
					high = high || strings.HasPrefix(sh, "s-high")
					hs[i].Multi[k].Sig, hs[i].Multi[k].Pub = signShape(x, s.keys[k].d, h, sh), s.keys[k].pub
				}
				continue
			}
			sh := mc.PickDev(x, fmt.Sprintf("shape%d", i), shapes...)
			high = high || strings.HasPrefix(sh, "s-high")
			hs[i].Sig, hs[i].Pub = signShape(x, s.keys[0].d, h, sh), s.keys[0].pub
		}
		fin, err := a.Insert(tx, hs, unlocks(a, sp), seg)
		x.Step("insert "+a.Name, fin, err)
		x.Check(err == nil, "%s cannot merge correct signatures: %v", a.Name, err)
		checkFinal(x, a, n, seg, fin, t, sp, high)
	}
	mc.Register(mc.Scenario{Prop: "B03", Name: "history", Quick: 1, Thorough: 2, ShardK: 5, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		history(x, 2, a)
	}})
	mc.Register(mc.Scenario{Prop: "B03", Name: "history-3", Quick: 0, Thorough: 1, ShardK: 6, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		sp := pickSpends(x, a, seg, 3)
		t := baseTx(a, 3, 2)
		tx := hx(t.Bytes())
		hs, err := a.Hashes(tx, unlocks(a, sp), seg, n)
		x.Check(err == nil && len(hs) == 3, "%s: %d digests, error %v", a.Name, len(hs), err)
		for i, s := range sp {
			h, _ := hex.DecodeString(hs[i].Hash)
			if s.kind == "multi" {
				for k := 0; k < s.m; k++ {
					hs[i].Multi[k].Sig, hs[i].Multi[k].Pub = ref.FastSign(s.keys[k].d, nonceN(k), h), s.keys[k].pub
				}
				continue
			}
			hs[i].Sig, hs[i].Pub = ref.FastSign(s.keys[0].d, nonceN(i), h), s.keys[0].pub
		}
		fin, err := a.Insert(tx, hs, unlocks(a, sp), seg)
		x.Step("insert "+a.Name, fin, err)
		x.Check(err == nil, "%s cannot merge correct signatures: %v", a.Name, err)
		checkFinal(x, a, n, seg, fin, t, sp)
	}})
	mc.Register(mc.Scenario{Prop: "B03", Name: "many-inputs", ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		nin := mc.Pick(x, "ins", 4, 253)
		nout := mc.Pick(x, "outs", 1, 253)
		if nin == 253 && !x.Deep && (nout == 253 || a.Name == "hc" || a.Name == "bsv") {
			x.Outcome("deep only")
			return
		}
		ks := kindsFor(a, seg, false)
		var sp []*spend
		for i := 0; i < nin; i++ {
			k := ks[i%len(ks)]
			if nin == 253 {
				k = ks[(i/100)%len(ks)]
				if k == "multi" {
					k = "pkh"
				}
			}
			if k == "multi" {
				sp = append(sp, newSpend(a, k, seg, uint64(1000+i), 1, ordinary[i%5], ordinary[5+i%5]))
			} else {
				sp = append(sp, newSpend(a, k, seg, uint64(1000+i), 0, ordinary[i%16]))
			}
		}
		t := baseTx(a, nin, nout)
		tx := hx(t.Bytes())
		hs, err := a.Hashes(tx, unlocks(a, sp), seg, n)
		x.Check(err == nil && len(hs) == nin, "%s: %d digests, error %v", a.Name, len(hs), err)
		for i, s := range sp {
			h, _ := hex.DecodeString(hs[i].Hash)
			if s.kind == "multi" {
				hs[i].Multi[1].Sig, hs[i].Multi[1].Pub = ref.FastSign(s.keys[1].d, nonce, h), s.keys[1].pub
				continue
			}
			hs[i].Sig, hs[i].Pub = ref.FastSign(s.keys[0].d, nonce, h), s.keys[0].pub
		}
		fin, err := a.Insert(tx, hs, unlocks(a, sp), seg)
		x.Step("insert "+a.Name, fin, err)
		x.Check(err == nil, "%s cannot merge correct signatures: %v", a.Name, err)
		checkFinal(x, a, n, seg, fin, t, sp)
	}})

	// the content of the transaction never matters to completing it
	mc.Register(mc.Scenario{Prop: "B03", Name: "contents", Quick: 1, Thorough: 2, ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		ks := kindsFor(a, seg, false)
		k := mc.Pick(x, "type", ks...)
		var sp []*spend
		if k == "multi" {
			sp = append(sp, newSpend(a, k, seg, 5000, 1, ordinary[0], ordinary[1]))
		} else {
			sp = append(sp, newSpend(a, k, seg, 5000, 0, ordinary[0]))
		}
		if !a.SegAlways || k != "multi" {
			sp = append(sp, newSpend(a, "pkh", seg, 6000, 0, ordinary[2]))
		}
		t := baseTx(a, len(sp), 2)
		t.Lock = mc.PickDev(x, "lock", locks32...)
		for i := range t.In {
			t.In[i].Seq = mc.PickDev(x, fmt.Sprintf("seq%d", i), uint32(0xffffffff), 0xfffffffd, 0xfffffffe, 0, 1, 0x01020304)
			t.In[i].Vout = mc.PickDev(x, fmt.Sprintf("vout%d", i), vouts32...)
			t.In[i].TxID = mc.PickDev(x, fmt.Sprintf("txid%d", i), idPatterns(i)...)
		}
		for i := range t.Out {
			t.Out[i].Value = mc.PickDev(x, fmt.Sprintf("value%d", i), amounts64...)
			if l := mc.PickDev(x, fmt.Sprintf("script%d", i), scriptLens...); l != 25 {
				t.Out[i].Script = dataScript(l)
			}
		}
		tx := hx(t.Bytes())
		hs, err := a.Hashes(tx, unlocks(a, sp), seg, n)
		x.Step("hashes "+a.Name, len(hs), err)
		x.Check(err == nil && len(hs) == len(sp), "%s: %d digests, error %v", a.Name, len(hs), err)
		for i, s := range sp {
			h, _ := hex.DecodeString(hs[i].Hash)
			if s.kind == "multi" {
				hs[i].Multi[1].Sig, hs[i].Multi[1].Pub = ref.FastSign(s.keys[1].d, nonce, h), s.keys[1].pub
				continue
			}
			hs[i].Sig, hs[i].Pub = ref.FastSign(s.keys[0].d, nonce, h), s.keys[0].pub
		}
		fin, err := a.Insert(tx, hs, unlocks(a, sp), seg)
		x.Step("insert "+a.Name, fin, err)
		x.Check(err == nil, "%s cannot merge correct signatures: %v", a.Name, err)
		checkFinal(x, a, n, seg, fin, t, sp)
	}})

	// the drivers' own signing operation
	checkSig := func(x *mc.X, who string, k key, h, sig, pub []byte) {
		x.Check(len(sig) == 64, "%s: signature of %d bytes", who, len(sig))
		x.Check(string(pub) == string(k.pub), "%s: public key %x, want %x", who, pub, k.pub)
		r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
		x.Check(s.Cmp(new(big.Int).Rsh(ref.K1.N, 1)) <= 0, "%s: signature %x is not low-S", who, sig)
		x.Check(ref.K1Verify(k.pub, h, r, s), "%s: signature %x of digest %x does not verify", who, sig, h)
	}
	mc.Register(mc.Scenario{Prop: "B03", Name: "sign", ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		var k key
		if c := x.Choose("key", 2+len(special)); c < 2 {
			k = ordinary[c]
		} else {
			k = special[c-2]
			x.Note("%s", k.name)
		}
		h := mc.Pick(x, "digest", ref.Sha256([]byte("d")), ones(32, 0xff), ref.Cat(ones(31, 0), []byte{1}), ref.Pad(ref.K1.N, 32))
		ne := 3
		if x.Deep {
			ne = 32
		}
		e := x.Choose("entropy", ne)
		x.SeedRand(fmt.Sprintf("e%d", e))
		sig, pub, err := a.Sign(hx(h), k.priv())
		x.Step("sign "+a.Name, sig, err)
		x.Check(err == nil, "%s cannot sign: %v", a.Name, err)
		checkSig(x, a.Name, k, h, sig, pub)
	}})
	signer := mkKey("signer", new(big.Int).SetBytes(ref.Sha256([]byte("signer"))))
	mc.Register(mc.Scenario{Prop: "B03", Name: "sign-short", ShardK: 2, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		e := mc.Pick(x, "entropy", ref.ShortSeedsK1...)
		x.SeedRand(fmt.Sprintf("s%d", e))
		h := ref.Sha256([]byte("digest"))
		sig, pub, err := a.Sign(hx(h), signer.priv())
		x.Step("sign "+a.Name, sig, err)
		x.Check(err == nil, "%s cannot sign: %v", a.Name, err)
		checkSig(x, a.Name, signer, h, sig, pub)
		// and the signature survives merging
		sp := []*spend{newSpend(a, "pkh", false, 1000, 0, signer)}
		_ = sp
	}})
	mc.Register(mc.Scenario{Prop: "B03", Name: "sign-all", Quick: 1, Thorough: 2, ShardK: 2, Fn: func(x *mc.X) {
		a := ByName("like")
		if a == nil {
			return
		}
		n := a.Nets[0]
		nin := 1 + x.Choose("ins", 3)
		var sp []*spend
		var keys [][]byte
		for i := 0; i < nin; i++ {
			k := mc.Pick(x, fmt.Sprintf("type%d", i), "pkh", "wrapped", "native")
			key := ordinary[i]
			ch := 1 + len(special)
			if i > 0 {
				ch++
			}
			if c := x.Dev(fmt.Sprintf("key%d", i), ch); c > len(special) {
				key = sp[i-1].keys[0]
				x.Note("key of input %d", i-1)
			} else if c > 0 {
				key = special[c-1]
				x.Note("%s", key.name)
			}
			sp = append(sp, newSpend(a, k, true, uint64(100000+i), 0, key))
			keys = append(keys, key.priv())
		}
		t := baseTx(a, nin, 2)
		fin, err := a.SignAll(hx(t.Bytes()), unlocks(a, sp), keys)
		x.Step("signall", fin, err)
		x.Check(err == nil, "like cannot sign: %v", err)
		checkFinal(x, a, n, true, fin, t, sp)
	}})
}
