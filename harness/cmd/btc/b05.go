//go:build go1.21

package main

import (
	"encoding/hex"
	"fmt"

	. "github.com/blocktree/go-owcdrivers/zzverif/drv/btcfam"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

func multiAdapters() (o []*Adapter) {
	for _, a := range All {
		if !a.Zen {
			o = append(o, a)
		}
	}
	return
}

func pickMulti(x *mc.X) *Adapter {
	ad := multiAdapters()
	if len(ad) == 0 {
		ad = All // development only
	}
	a := ad[x.Choose("driver", len(ad))]
	x.Note("%s", a.Name)
	return a
}

func init() {
	mc.Register(mc.Scenario{Prop: "B05", Name: "address", ShardK: 4, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		n := pickNet(x, a)
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		nk := 1 + x.Choose("n", 15)
		m := 1 + x.Choose("m", nk)
		rot := 0
		if nk > 1 {
			rot = mc.Pick(x, "order", 0, 1, nk-1)
		}
		var ks []key
		for i := 0; i < nk; i++ {
			ks = append(ks, ordinary[(i+rot)%nk])
		}
		var pubs [][]byte
		for _, k := range ks {
			pubs = append(pubs, k.pub)
		}
		s := newSpend(a, "multi", seg, 0, m, ks...)
		ad, rd, err := a.Multi(byte(m), pubs, seg, n)
		x.Step("multi "+a.Name, ad, rd, err)
		if err != nil {
			// a refused script must be one that the network limits exclude
			x.Check(!seg && len(s.redeem) > 520, "%s: refuses a %d-of-%d address: %v", a.Name, m, nk, err)
			x.Outcome("refused")
			return
		}
		x.Check(rd == hx(s.redeem), "%s: redeem script of %d-of-%d is %s, want %x", a.Name, m, nk, rd, s.redeem)
		t := nets[n.Name]
		h := s.lock[2:22]
		x.Check(ad == b58(t.sh, h) || (t.sh2 != nil && n.P2SH != nil && ad == b58(t.sh2, h)), "%s: address of the %d-of-%d script is %s, want %s", a.Name, m, nk, ad, b58(t.sh, h))
		x.Outcome("address")
	}})
	mc.Register(mc.Scenario{Prop: "B05", Name: "address-bad", ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		bad := mc.Pick(x, "bad", "m0", "m>n", "no-keys", "short-key", "long-key", "empty-key", "n17")
		pubs := [][]byte{ordinary[0].pub, ordinary[1].pub, ordinary[2].pub}
		m := byte(2)
		switch bad {
		case "m0":
			m = 0
		case "m>n":
			m = 4
		case "no-keys":
			pubs, m = nil, 1
		case "short-key":
			pubs[1] = pubs[1][:32]
		case "long-key":
			pubs[1] = append(append([]byte{}, pubs[1]...), 0)
		case "empty-key":
			pubs[1] = nil
		case "n17":
			pubs = nil
			for i := 0; i < 17; i++ {
				pubs = append(pubs, ordinary[i%16].pub)
			}
		}
		ad, rd, err := a.Multi(m, pubs, seg, a.Nets[0])
		x.Step("multi "+a.Name, ad, rd, err)
		x.Check(err != nil, "%s: returns address %s for an impossible script (%s): %s", a.Name, ad, bad, rd)
	}})

	sizes := func(x *mc.X) (int, int) {
		type mn struct{ m, n int }
		o := []mn{{1, 1}, {1, 2}, {2, 2}, {1, 3}, {2, 3}, {3, 3}}
		if x.Deep {
			o = append(o, mn{1, 4}, mn{2, 4}, mn{3, 4}, mn{4, 4}, mn{2, 5}, mn{3, 5})
		}
		c := x.Choose("m-of-n", len(o))
		x.Note("%d-of-%d", o[c].m, o[c].n)
		return o[c].m, o[c].n
	}
	subset := func(x *mc.X, n int) []int {
		mask := x.Choose("signers", 1<<uint(n))
		x.Note("%0*b", n, mask)
		var s []int
		for i := 0; i < n; i++ {
			if mask>>uint(i)&1 == 1 {
				s = append(s, i)
			}
		}
		return s
	}
	// every subset of signers; the spend is one of one or two inputs
	mc.Register(mc.Scenario{Prop: "B05", Name: "subsets", ShardK: 5, Fn: func(x *mc.X) {
		a := pickMulti(x)
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		m, nk := sizes(x)
		su := subset(x, nk)
		nin, pos := 1, 0
		if !a.SegAlways && x.Choose("ins", 2) == 1 {
			nin, pos = 2, 1
		}
		var sp []*spend
		if nin == 2 {
			k := "pkh"
			if seg {
				k = "native"
			}
			sp = append(sp, newSpend(a, k, seg, 777, 0, ordinary[14]))
		}
		s := newSpend(a, "multi", seg, 5000, m, ordinary[:nk]...)
		sp = append(sp, s)
		t := baseTx(a, nin, 1)
		tx := hx(t.Bytes())
		hs, err := a.Hashes(tx, unlocks(a, sp), seg, n)
		x.Check(err == nil && len(hs) == nin && len(hs[pos].Multi) == nk, "%s: no digest for a %d-of-%d spend: %v", a.Name, m, nk, err)
		if nin == 2 {
			h, _ := hex.DecodeString(hs[0].Hash)
			hs[0].Sig, hs[0].Pub = ref.FastSign(sp[0].keys[0].d, nonce, h), sp[0].keys[0].pub
		}
		h, _ := hex.DecodeString(hs[pos].Hash)
		for _, k := range su {
			hs[pos].Multi[k].Sig, hs[pos].Multi[k].Pub = ref.FastSign(s.keys[k].d, nonceN(k), h), s.keys[k].pub
		}
		fin, err := a.Insert(tx, hs, unlocks(a, sp), seg)
		x.Step("insert "+a.Name, fin, err)
		if len(su) < m {
			ok := false
			if err == nil {
				ok = a.Verify(fin, unlocks(a, sp), seg, n)
			}
			x.Check(!ok, "%s: a %d-of-%d spend with %d signers verifies", a.Name, m, nk, len(su))
			x.Outcome("too few")
			return
		}
		if len(su) > m && err != nil {
			x.Outcome("too many, refused")
			return
		}
		x.Check(err == nil, "%s: cannot complete a %d-of-%d spend with signers %v: %v", a.Name, m, nk, su, err)
		checkFinal(x, a, n, seg, fin, t, sp)
		x.Outcome("complete")
	}})
	// large scripts
	mc.Register(mc.Scenario{Prop: "B05", Name: "large", ShardK: 4, Fn: func(x *mc.X) {
		a := pickMulti(x)
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		type mn struct{ m, n int }
		c := mn{n: 4 + x.Choose("n", 12)}
		c.m = 1 + x.Choose("m", c.n)
		x.Note("%d-of-%d", c.m, c.n)
		side := mc.Pick(x, "signers", "first", "last", "spread")
		s := newSpend(a, "multi", seg, 5000, c.m, ordinary[:c.n]...)
		if !seg && len(s.redeem) > 520 {
			x.Outcome("beyond the legacy limit")
			return
		}
		sp := []*spend{s}
		t := baseTx(a, 1, 1)
		tx := hx(t.Bytes())
		hs, err := a.Hashes(tx, unlocks(a, sp), seg, n)
		x.Check(err == nil && len(hs) == 1 && len(hs[0].Multi) == c.n, "%s: no digest for a %d-of-%d spend: %v", a.Name, c.m, c.n, err)
		h, _ := hex.DecodeString(hs[0].Hash)
		for i := 0; i < c.m; i++ {
			k := i
			if side == "last" {
				k = c.n - c.m + i
			}
			if side == "spread" {
				k = i * c.n / c.m
			}
			hs[0].Multi[k].Sig, hs[0].Multi[k].Pub = ref.FastSign(s.keys[k].d, nonceN(k), h), s.keys[k].pub
		}
		fin, err := a.Insert(tx, hs, unlocks(a, sp), seg)
		x.Step("insert "+a.Name, fin, err)
		x.Check(err == nil, "%s: cannot complete a %d-of-%d spend: %v", a.Name, c.m, c.n, err)
		checkFinal(x, a, n, seg, fin, t, sp)
	}})
	// every length of the unlocking script that a choice of signatures can give it
	mc.Register(mc.Scenario{Prop: "B05", Name: "lengths", ShardK: 5, Fn: func(x *mc.X) {
		a := pickMulti(x)
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		max := 5
		if x.Deep {
			max = 15
		}
		nk := 1 + x.Choose("n", max)
		m := 1 + x.Choose("m", nk)
		high := x.Choose("long r", m+1)
		short := 0
		if m-high > 0 && nk <= 3 {
			short = x.Choose("short s", m-high+1)
		}
		s := newSpend(a, "multi", seg, 5000, m, ordinary[:nk]...)
		if !seg && len(s.redeem) > 520 {
			x.Outcome("beyond the legacy limit")
			return
		}
		sp := []*spend{s}
		t := baseTx(a, 1, 1)
		tx := hx(t.Bytes())
		hs, err := a.Hashes(tx, unlocks(a, sp), seg, n)
		x.Check(err == nil && len(hs) == 1 && len(hs[0].Multi) == nk, "%s: no digest for a %d-of-%d spend: %v", a.Name, m, nk, err)
		h, _ := hex.DecodeString(hs[0].Hash)
		for k := 0; k < m; k++ {
			sh := "r-low"
			if k < high {
				sh = "r-high"
			} else if k < high+short {
				sh = "s-zero-low"
			}
			hs[0].Multi[k].Sig, hs[0].Multi[k].Pub = signShape(x, s.keys[k].d, h, sh), s.keys[k].pub
		}
		fin, err := a.Insert(tx, hs, unlocks(a, sp), seg)
		x.Step("insert "+a.Name, fin, err)
		x.Check(err == nil, "%s: cannot complete a %d-of-%d spend: %v", a.Name, m, nk, err)
		checkFinal(x, a, n, seg, fin, t, sp)
		x.Outcome("complete")
	}})
	// slots filled wrongly: every function from slots to {empty, own signature, another slot's signature, stranger}
	mc.Register(mc.Scenario{Prop: "B05", Name: "slots", ShardK: 5, Fn: func(x *mc.X) {
		a := pickMulti(x)
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		m, nk := sizes(x)
		if nk > 3 {
			x.Outcome("covered for n<=3")
			return
		}
		s := newSpend(a, "multi", seg, 5000, m, ordinary[:nk]...)
		sp := []*spend{s}
		t := baseTx(a, 1, 1)
		tx := hx(t.Bytes())
		hs, err := a.Hashes(tx, unlocks(a, sp), seg, n)
		x.Check(err == nil && len(hs) == 1 && len(hs[0].Multi) == nk, "%s: no digest: %v", a.Name, err)
		h, _ := hex.DecodeString(hs[0].Hash)
		own, wrong := 0, false
		for k := 0; k < nk; k++ {
			c := x.Choose(fmt.Sprintf("slot%d", k), nk+3) // 0 empty, 1..nk key i-1's signature, nk+1 stranger, nk+2 own key shown, stranger's signature
			ms := &hs[0].Multi[k]
			switch {
			case c == 0:
			case c <= nk:
				ms.Sig, ms.Pub = ref.FastSign(s.keys[c-1].d, nonceN(c-1), h), s.keys[c-1].pub
				if c-1 == k {
					own++
				} else {
					wrong = true
				}
			case c == nk+1:
				wrong = true
				ms.Sig, ms.Pub = ref.FastSign(ordinary[12].d, nonceN(40), h), ordinary[12].pub
			default:
				wrong = true
				ms.Sig, ms.Pub = ref.FastSign(ordinary[12].d, nonceN(40), h), s.keys[k].pub
			}
		}
		fin, err := a.Insert(tx, hs, unlocks(a, sp), seg)
		x.Step("insert "+a.Name, fin, err)
		if err != nil {
			x.Check(own != m || wrong, "%s: cannot complete a %d-of-%d spend: %v", a.Name, m, nk, err)
			x.Outcome("refused")
			return
		}
		ok := a.Verify(fin, unlocks(a, sp), seg, n)
		x.Step("verify "+a.Name, ok)
		b, _ := hex.DecodeString(fin)
		e := evalLax(a, b, sp)
		x.Check(!ok || e == nil, "%s: verifies a %d-of-%d spend that the network rejects (%v): %s", a.Name, m, nk, e, fin)
	}})
	// forged: the transaction is assembled outside the driver
	mc.Register(mc.Scenario{Prop: "B05", Name: "forged", ShardK: 4, Fn: func(x *mc.X) {
		a := pickMulti(x)
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		m, nk := sizes(x)
		if nk > 3 {
			x.Outcome("covered for n<=3")
			return
		}
		s := newSpend(a, "multi", seg, 5000, m, ordinary[:nk]...)
		sp := []*spend{s}
		t := baseTx(a, 1, 1)
		h := digest(a, t, 0, s)
		ns := x.Choose("signatures", nk+2)
		var g [][]byte
		for k := 0; k < ns; k++ {
			c := x.Choose(fmt.Sprintf("sig%d", k), nk+1)
			if c == nk {
				g = append(g, ref.FastSign(ordinary[12].d, nonceN(40), h))
			} else {
				g = append(g, ref.FastSign(s.keys[c].d, nonceN(c+7*k), h))
			}
		}
		refSign(a, t, 0, s, g)
		ok := a.Verify(hx(t.Bytes()), unlocks(a, sp), seg, n)
		x.Step("verify "+a.Name, ok)
		e := evalLax(a, t.Bytes(), sp)
		x.Check(!ok || e == nil, "%s: verifies a %d-of-%d spend that the network rejects (%v): %x", a.Name, m, nk, e, t.Bytes())
		if !a.SegAlways {
			x.Check(ok || e != nil, "%s: refuses a complete %d-of-%d spend: %x", a.Name, m, nk, t.Bytes())
		}
	}})
	// one of many signatures is not good
	mc.Register(mc.Scenario{Prop: "B05", Name: "forged-large", ShardK: 4, Fn: func(x *mc.X) {
		a := pickMulti(x)
		n := a.Nets[0]
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		type mn struct{ m, n int }
		o := []mn{{2, 4}, {3, 4}, {4, 4}, {3, 5}, {5, 7}, {7, 7}, {8, 15}, {15, 15}}
		c := o[x.Choose("m-of-n", len(o))]
		x.Note("%d-of-%d", c.m, c.n)
		bad := x.Choose("position", c.m)
		how := mc.Pick(x, "how", "stranger", "other digest", "twice", "missing", "order", "none")
		s := newSpend(a, "multi", seg, 5000, c.m, ordinary[:c.n]...)
		if !seg && len(s.redeem) > 520 {
			x.Outcome("beyond the legacy limit")
			return
		}
		sp := []*spend{s}
		t := baseTx(a, 1, 1)
		h := digest(a, t, 0, s)
		var g [][]byte
		for k := 0; k < c.m; k++ {
			who := s.keys[c.n-c.m+k].d
			d := h
			if k == bad {
				switch how {
				case "stranger":
					who = ordinary[15].d
				case "other digest":
					d = ref.Sha256(h)
				case "twice":
					if k > 0 {
						g = append(g, g[k-1])
						continue
					}
					who = s.keys[c.n-c.m+1-1/c.m].d
				case "missing":
					continue
				}
			}
			g = append(g, ref.FastSign(who, nonceN(k), d))
		}
		if how == "order" {
			if bad == 0 {
				return
			}
			g[bad-1], g[bad] = g[bad], g[bad-1]
		}
		refSign(a, t, 0, s, g)
		ok := a.Verify(hx(t.Bytes()), unlocks(a, sp), seg, n)
		x.Step("verify "+a.Name, ok)
		e := evalLax(a, t.Bytes(), sp)
		x.Check(!ok || e == nil, "%s: verifies a %d-of-%d spend that the network rejects (%s at %d; %v): %x", a.Name, c.m, c.n, how, bad, e, t.Bytes())
		if !a.SegAlways {
			x.Check(ok || e != nil, "%s: refuses a complete %d-of-%d spend: %x", a.Name, c.m, c.n, t.Bytes())
		}
	}})
}
