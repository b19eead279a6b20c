//go:build go1.21

package main

import (
	"strings"

	. "github.com/blocktree/go-owcdrivers/zzverif/drv/btcfam"
	"github.com/blocktree/go-owcdrivers/zzverif/drv/chain"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

func clip(s string) string {
	if len(s) > 900 {
		return s[:800] + "..." + s[len(s)-100:]
	}
	return s
}

// foreignAddrs: correct addresses that the network of n does not have.
func foreignAddrs(a *Adapter, n Net, seed byte) []string {
	h := ref.Sha256([]byte{seed})
	own := nets[n.Name]
	ok := map[string]bool{string(own.pkh): true, string(own.sh): true}
	if own.sh2 != nil {
		ok[string(own.sh2)] = true
	}
	seen := map[string]bool{}
	var out []string
	for _, nm := range []string{"BTCMainnetAddressPrefix", "BTCTestnetAddressPrefix", "LTCMainnetAddressPrefix", "LTCTestnetAddressPrefix", "ZECMainnetAddressPrefix", "ZECTestnetAddressPrefix", "HCMainnetAddressPrefix", "HCTestnetAddressPrefix", "ZENMainnetAddressPrefix"} {
		for _, p := range [][]byte{nets[nm].pkh, nets[nm].sh, nets[nm].sh2} {
			if p == nil || ok[string(p)] || seen[string(p)] {
				continue
			}
			seen[string(p)] = true
			out = append(out, b58(p, h[:20]))
		}
	}
	for _, p := range [][]byte{own.pkh, own.sh} {
		out = append(out, b58(p, h[:19]), b58(p, h[:21]), b58(p, nil), b58(p, h[:32]))
	}
	for _, hrp := range []string{"bc", "tb", "ltc", "tltc", "bcrt", "b"} {
		if a.Bech32 && hrp == own.hrp {
			continue
		}
		out = append(out, segAddr(hrp, h[:20]), segAddr(hrp, h[:32]))
	}
	if a.Bech32 && own.hrp != "" {
		g := segAddr(own.hrp, h[:20])
		for _, l := range []int{1, 2, 19, 21, 31, 33, 40} {
			out = append(out, segAddr(own.hrp, ref.Cat(h, h)[:l]))
		}
		for _, v := range []byte{1, 16, 17, 31} {
			out = append(out, ref.Bech32Raw(own.hrp, append([]byte{v}, ref.To5(h[:20])...), 1), ref.Bech32Raw(own.hrp, append([]byte{v}, ref.To5(h[:32])...), 0x2bc830a3))
		}
		out = append(out, ref.Bech32Raw(own.hrp, append([]byte{0}, ref.To5(h[:20])...), 0x2bc830a3), ref.Bech32Raw(own.hrp, nil, 1), ref.Bech32Raw(own.hrp, []byte{0}, 1), strings.ToUpper(g[:8])+g[8:], g[:4]+strings.ToUpper(g[4:]), ref.Bech32Raw(own.hrp, append(append([]byte{0}, ref.To5(h[:20])...), 0), 1))
		for _, i := range []int{0, len(own.hrp), len(own.hrp) + 1, len(own.hrp) + 5, len(g) - 1, len(g) - 6} {
			c := byte('q')
			if g[i] == 'q' {
				c = 'p'
			}
			out = append(out, g[:i]+string([]byte{c})+g[i+1:])
		}
		// the padding bits of a 20-byte program are none; of a 32-byte one there are four
		p := ref.To5(h[:32])
		p[len(p)-1] |= 1
		out = append(out, ref.Bech32Raw(own.hrp, append([]byte{0}, p...), 1))
	}
	return out
}

func init() {
	mc.Register(mc.Scenario{Prop: "R02", Name: "requests", ShardK: 3, Fn: func(x *mc.X) {
		var l []*chain.Drv
		for _, d := range chain.Drvs {
			if d.Bad != nil {
				l = append(l, d)
			}
		}
		d := l[x.Choose("driver", len(l))]
		x.Note("%s", d.Name)
		f := d.Bad(x)
		e, err := f()
		x.Step("create "+d.Name, e, err)
		x.Check(err != nil, "%s: makes a transaction from a request that cannot be honoured: %s", d.Name, clip(e))
		x.Outcome("refused")
	}})
	mc.Register(mc.Scenario{Prop: "R02", Name: "btc-requests", ShardK: 4, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		n := pickNet(x, a)
		r := &Req{Net: n}
		nin, nout := 1+x.Choose("ins", 2), 1+x.Choose("outs", 2)
		for i := 0; i < nin; i++ {
			r.Ins = append(r.Ins, Vin{TxID: hx(txid(i)), Vout: uint32(i)})
		}
		for i := 0; i < nout; i++ {
			ad, _ := address(n, "pkh", ref.Sha256([]byte{byte(i)}))
			r.Outs = append(r.Outs, Vout{Address: ad, Amount: uint64(1000 + i)})
		}
		if a.Zen {
			r.BlockHash, r.BlockHeight = hx(txid(9)), 654321
		}
		omni := a.NeedsOmni
		if a.HasOmni && !a.NeedsOmni {
			omni = x.Choose("omni", 2) == 1
		}
		if omni {
			r.Omni = &Omni{TxType: 0, PropertyId: 31, Amount: 5}
		}
		assets := a.Cxc && x.Choose("assets", 2) == 1
		if assets {
			r.Outs = r.Outs[:1]
			for i := 0; i < nout; i++ {
				ad, _ := address(n, "pkh", ref.Sha256([]byte{byte(i + 10)}))
				r.Assets = append(r.Assets, Asset{TxID: hx(ref.Sha256([]byte{byte(i)})[:16]), Address: ad, Amount: 7})
			}
		}
		fields := []string{"txid", "address", "no-inputs", "no-outputs"}
		if a.Zen {
			fields = append(fields, "block")
		}
		if omni {
			fields = append(fields, "omni-type", "omni-address", "omni-memo")
		}
		if assets {
			fields = append(fields, "asset-id", "asset-address")
		}
		switch mc.Pick(x, "field", fields...) {
		case "txid":
			i := x.Choose("at", len(r.Ins))
			r.Ins[i].TxID = chain.BadID(x, "value", r.Ins[i].TxID)
		case "address":
			i := x.Choose("at", len(r.Outs))
			r.Outs[i].Address = chain.BadAddr(x, "value", r.Outs[i].Address, foreignAddrs(a, n, byte(i))...)
		case "no-inputs":
			r.Ins = mc.Pick(x, "value", nil, []Vin{})
		case "no-outputs":
			if omni || assets {
				return
			}
			r.Outs = mc.Pick(x, "value", nil, []Vout{})
		case "block":
			r.BlockHash = chain.BadID(x, "value", r.BlockHash)
		case "omni-type":
			r.Omni.TxType = mc.Pick(x, "value", -1, 1, 2, 3, 5, 54, 57, 184, 187, 65535, 65536, 65536+4, 1<<31)
		case "omni-memo":
			r.Omni.TxType = mc.Pick(x, "type", 55, 56)
			r.Omni.Memo = mc.Pick(x, "value", strings.Repeat("m", 256), strings.Repeat("m", 300), strings.Repeat("m", 65536))
		case "omni-address":
			r.Omni.TxType = mc.Pick(x, "type", 185, 186)
			g, _ := address(n, "pkh", ref.Sha256([]byte{77}))
			r.Omni.Address = chain.BadAddr(x, "value", g, foreignAddrs(a, n, 77)...)
		case "asset-id":
			i := x.Choose("at", len(r.Assets))
			g := r.Assets[i].TxID
			r.Assets[i].TxID = mc.Pick(x, "value", "", g[:30], g[:31], g+"00", "g"+g[1:], g+g, "0x"+g)
		case "asset-address":
			i := x.Choose("at", len(r.Assets))
			r.Assets[i].Address = chain.BadAddr(x, "value", r.Assets[i].Address, foreignAddrs(a, n, byte(i))...)
		}
		t, err := a.Create(r)
		x.Step("create "+a.Name, t, err)
		x.Check(err != nil, "%s: makes a transaction from a request that cannot be honoured: %s", a.Name, clip(t))
		x.Outcome("refused")
	}})
	// spent outputs whose data contradicts the input, and digests or keys that are none
	mc.Register(mc.Scenario{Prop: "R02", Name: "btc-digests", ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		sp, seg := pickCombo(x, a)
		t := baseTx(a, len(sp), 1)
		u := unlocks(a, sp)
		i := x.Choose("at", len(u))
		h := ref.Hash160([]byte("x"))
		switch mc.Pick(x, "field", "lock", "redeem", "fewer", "more", "none") {
		case "lock":
			g := u[i].Lock
			if a.Zen {
				g = g[:50] // nothing is said about what follows the payment part
			}
			u[i].Lock = mc.Pick(x, "value", "", "zz", g+"0", g[:len(g)-2], hx(ref.P2PKH(h))+"0", "00", "6a", "51", hx(ref.Cat([]byte{0x21}, ordinary[0].pub, []byte{0xac})), "0014"+hx(h)[:38], "0020"+hx(h), "5120"+hx(h)+hx(h)[:24], "a914"+hx(h)+"88", "76a913"+hx(h)[:38]+"88ac")
		case "redeem":
			if sp[i].kind != "multi" && sp[i].kind != "wrapped" {
				return
			}
			g := u[i].Redeem
			u[i].Redeem = mc.Pick(x, "value", "zz", g[:len(g)-2], g+"00", g+"0", hx(ref.Cat(sp[i].redeem[:len(sp[i].redeem)-1], []byte{sp[i].redeem[len(sp[i].redeem)-1] ^ 1})), "0014"+hx(h))
		case "fewer":
			u = u[:len(u)-1]
		case "more":
			u = append(u, u[0])
		case "none":
			u = mc.Pick(x, "value", nil, []Unlock{})
		}
		_, err := a.Hashes(hx(t.Bytes()), u, seg, a.Nets[0])
		x.Step("digests "+a.Name, err)
		x.Check(err != nil, "%s: hands out digests although the data of the spent outputs is wrong: %+v", a.Name, u)
		x.Outcome("refused")
	}})
	mc.Register(mc.Scenario{Prop: "R02", Name: "sign", ShardK: 2, Fn: func(x *mc.X) {
		nb := len(All)
		k := x.Choose("driver", nb+len(chain.Drvs))
		g := hx(ref.Sha256([]byte("m")))
		what := mc.Pick(x, "field", "digest", "key")
		order := ref.Pad(ref.K1.N, 32)
		if k >= nb && chain.Drvs[k-nb].Curve == chain.R1 {
			order = ref.Pad(ref.R1.N, 32)
		}
		over := append([]byte{}, order...)
		over[31]++
		keys := [][]byte{nil, {}, {1}, make([]byte, 31), make([]byte, 33), make([]byte, 32), order, over, []byte(strings.Repeat("\xff", 32)), make([]byte, 64)}
		if k >= nb && (chain.Drvs[k-nb].Curve == chain.Ed || chain.Drvs[k-nb].Curve == chain.X || chain.Drvs[k-nb].Curve == chain.Other) {
			keys = [][]byte{nil, {}, {1}, make([]byte, 31), make([]byte, 33)}
		}
		digest, key, name := g, ordinary[0].priv(), ""
		if k >= nb {
			key = chain.KeyN(chain.Drvs[k-nb].Curve, 0).Priv
		}
		if what == "digest" {
			bad := []string{"", g[:62], g[:63], g + "00", "zz" + g[2:], "0x" + g, g[:2]}
			if k >= nb {
				switch chain.Drvs[k-nb].Name {
				case "polkadot", "vsys", "fiii", "bytom":
					// the message of any length is signed, not a digest
					bad = []string{g[:63], "zz" + g[2:], "0x" + g}
				}
			}
			digest = mc.Pick(x, "value", bad...)
		} else {
			key = mc.Pick(x, "value", keys...)
		}
		var s []byte
		var err error
		if k < nb {
			name = All[k].Name
			x.Note("%s", name)
			s, _, err = All[k].Sign(digest, key)
		} else {
			name = chain.Drvs[k-nb].Name
			s, err = chain.Drvs[k-nb].Sign(digest, key)
		}
		x.Step("sign "+name, s, err)
		x.Check(err != nil, "%s: signs digest %q with key %x: %x", name, digest, key, s)
		x.Outcome("refused")
	}})
}
