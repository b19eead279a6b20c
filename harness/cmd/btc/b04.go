//go:build go1.21

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	. "github.com/blocktree/go-owcdrivers/zzverif/drv/btcfam"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

func evalLax(a *Adapter, raw []byte, sp []*spend) error {
	t, err := ref.ParseBTx(raw)
	if err != nil {
		return err
	}
	if len(t.In) != len(sp) {
		return fmt.Errorf("%d inputs for %d spent outputs", len(t.In), len(sp))
	}
	c := chainOf(a)
	c.AllowHighS = true
	for i, s := range sp {
		if err := c.Eval(t, i, s.lock, s.amount); err != nil {
			return fmt.Errorf("input %d (%s): %v", i, s.kind, err)
		}
	}
	return nil
}

// malformed encodes a signature in a way strict DER forbids.
func malformed(g []byte, form string) []byte {
	d := ref.EncDER(g)
	v := func(b []byte, pad int) []byte { // pad: zero bytes in front of the shortest form of the number
		n := new(big.Int).SetBytes(b).Bytes()
		n = ref.Cat(make([]byte, pad), n)
		return ref.Cat([]byte{2, byte(len(n))}, n)
	}
	std := func(b []byte) []byte {
		if n := new(big.Int).SetBytes(b).Bytes(); len(n) == 0 || n[0] >= 0x80 {
			return v(b, 1)
		}
		return v(b, 0)
	}
	r, s := std(g[:32]), std(g[32:])
	switch form {
	case "unpadded-r":
		r = v(g[:32], 0)
	case "unpadded-s":
		s = v(g[32:], 0)
	case "padded-r":
		r = v(g[:32], 1)
	case "padded-s":
		s = v(g[32:], 1)
	case "long-r":
		r = v(g[:32], 2)
	case "long-s":
		s = v(g[32:], 2)
	case "tail":
		return append(d, 0)
	case "length":
		d[1]++
		return d
	}
	return ref.Cat([]byte{0x30, byte(len(r) + len(s))}, r, s)
}

func init() {
	verify := func(x *mc.X, a *Adapter, raw []byte, u []Unlock, seg bool) bool {
		ok := a.Verify(hx(raw), u, seg, a.Nets[0])
		x.Step("verify "+a.Name, ok, raw)
		return ok
	}
	mc.Register(mc.Scenario{Prop: "B04", Name: "every-byte", ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		sp, seg := pickCombo(x, a)
		t := baseTx(a, len(sp), 1)
		signAllRef(a, t, sp)
		raw := t.Bytes()
		pos := x.Choose("pos", len(raw)+1)
		if pos == len(raw) {
			x.Check(verify(x, a, raw, unlocks(a, sp), seg), "%s: refuses a correctly signed transaction %x", a.Name, raw)
			x.Outcome("intact")
			return
		}
		v := raw[pos]
		if x.Deep {
			v ^= byte(mc.Pick(x, "xor", 0x01, 0x80, 0x40, 0x20, 0x10, 0x08, 0x04, 0x02, 0xff))
		} else {
			v ^= byte(mc.Pick(x, "xor", 0x01, 0x80))
		}
		m := append([]byte{}, raw...)
		m[pos] = v
		ok := verify(x, a, m, unlocks(a, sp), seg)
		e := evalLax(a, m, sp)
		x.Check(!ok || e == nil, "%s: accepts a signed transaction whose byte %d of %d was changed from %02x to %02x (network: %v): %x", a.Name, pos, len(raw), raw[pos], v, e, m)
		x.Outcome("altered")
	}})
	edits := []string{"append", "truncate", "drop-out", "dup-out", "swap-outs", "add-in", "drop-in", "swap-ins", "unsigned", "half-signed", "swap-sigs", "foreign", "foreign-pub", "other-tx", "empty-sig", "strip-wit", "add-wit", "extra-push", "hash-none", "uncompressed", "der"}
	mc.Register(mc.Scenario{Prop: "B04", Name: "structure", ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		sp, seg := pickCombo(x, a)
		ed := mc.Pick(x, "edit", edits...)
		at := 0
		if len(sp) > 1 {
			at = x.Choose("input", len(sp))
		}
		t := baseTx(a, len(sp), 2)
		signAllRef(a, t, sp)
		resign := func(other *ref.BTx, who key) {
			// input `at` signed by someone else / over something else
			s := *sp[at]
			h := digest(a, other, at, &s)
			var g [][]byte
			n := 1
			if s.kind == "multi" {
				n = s.m
			}
			for k := 0; k < n; k++ {
				d := s.keys[k].d
				if who.d != nil {
					d = who.d
				}
				g = append(g, ref.FastSign(d, nonceN(77+k), h))
			}
			refSign(a, t, at, &s, g)
		}
		var raw []byte
		u := unlocks(a, sp)
		switch ed {
		case "append":
			raw = append(t.Bytes(), 0)
		case "truncate":
			raw = t.Bytes()
			raw = raw[:len(raw)-1]
		case "drop-out":
			t.Out = t.Out[:1]
		case "dup-out":
			t.Out = append(t.Out, t.Out[0])
		case "swap-outs":
			t.Out[0], t.Out[1] = t.Out[1], t.Out[0]
		case "add-in":
			t.In = append(t.In, ref.BIn{TxID: txid(99), Vout: 3, Seq: 0xffffffff})
		case "drop-in":
			if len(t.In) == 1 {
				t.In = append(t.In, t.In[0])
			} else {
				t.In = t.In[:1]
			}
		case "swap-ins":
			if len(t.In) == 1 {
				t.In[0].Vout++
			} else {
				t.In[0], t.In[1] = t.In[1], t.In[0]
			}
		case "unsigned":
			for i := range t.In {
				t.In[i].Script, t.In[i].Wit = nil, nil
			}
		case "half-signed":
			t.In[at].Script, t.In[at].Wit = nil, nil
		case "swap-sigs":
			if len(sp) > 1 {
				t.In[0].Script, t.In[1].Script = t.In[1].Script, t.In[0].Script
				t.In[0].Wit, t.In[1].Wit = t.In[1].Wit, t.In[0].Wit
			} else {
				resign(t, ordinary[9])
			}
		case "foreign": // someone else's signature, the owner's key shown
			resign(t, ordinary[9])
		case "foreign-pub": // someone else's signature and key
			f := newSpend(a, sp[at].kind, seg, sp[at].amount, sp[at].m, ordinary[9], ordinary[10], ordinary[11])
			if sp[at].kind != "multi" {
				f = newSpend(a, sp[at].kind, seg, sp[at].amount, 0, ordinary[9])
			}
			// once over the digest of the real output, once over the digest of an output of the foreign key
			over := sp[at]
			if x.Choose("own-script", 2) == 1 {
				over = f
			}
			h := digest(a, t, at, over)
			var g [][]byte
			for k := 0; k < len(f.keys) && (k == 0 || k < f.m); k++ {
				g = append(g, ref.FastSign(f.keys[k].d, nonceN(5+k), h))
			}
			refSign(a, t, at, f, g)
		case "other-tx":
			o := baseTx(a, len(sp), 1)
			resign(o, key{})
		case "empty-sig":
			if len(t.In[at].Wit) > 0 {
				for i := range t.In[at].Wit[:len(t.In[at].Wit)-1] {
					t.In[at].Wit[i] = nil
				}
			} else {
				t.In[at].Script = []byte{0, 0}
			}
		case "strip-wit":
			if len(t.In[at].Wit) == 0 {
				t.In[at].Script = t.In[at].Script[:len(t.In[at].Script)/2]
			}
			t.In[at].Wit = nil
		case "add-wit":
			t.In[at].Wit = append([][]byte{{1}}, t.In[at].Wit...)
		case "extra-push":
			t.In[at].Script = append([]byte{0x51}, t.In[at].Script...)
		case "hash-none":
			// a signature made for another hash type, with that type byte
			s := *sp[at]
			if s.kind != "pkh" || a.ForkID {
				t.In[at].Seq--
				break
			}
			g := ref.FastSign(s.keys[0].d, nonce, t.Legacy(at, s.lock, 2))
			t.In[at].Script = ref.Cat(pushOp(append(ref.EncDER(g), 2)), pushOp(s.keys[0].pub))
		case "der": // the right signature values in an encoding that is not the DER of them
			s := *sp[at]
			h := digest(a, t, at, &s)
			forms := []string{"unpadded-r", "unpadded-s", "padded-r", "padded-s", "long-r", "long-s", "tail", "length"}
			form := forms[x.Choose("form", len(forms))]
			var good []byte
			for n := 100; ; n++ {
				good = ref.FastSign(s.keys[0].d, nonceN(n), h)
				if form == "unpadded-s" { // the other root
					good = ref.Cat(good[:32], ref.Pad(new(big.Int).Sub(ref.K1.N, new(big.Int).SetBytes(good[32:])), 32))
				}
				hi := func(i int) bool { return good[i] >= 0x80 }
				if form == "unpadded-r" && !hi(0) || form == "unpadded-s" && !hi(32) || form == "padded-r" && (hi(0) || good[0] == 0) || form == "padded-s" && (hi(32) || good[32] == 0) {
					continue
				}
				break
			}
			var gs [][]byte
			gs = append(gs, good)
			for k := 1; k < s.m; k++ {
				gs = append(gs, ref.FastSign(s.keys[k].d, nonceN(77+k), h))
			}
			refSign(a, t, at, &s, gs)
			bad := malformed(good, form)
			if len(t.In[at].Wit) > 0 {
				for i, w := range t.In[at].Wit {
					if len(w) > 1 && bytes.Equal(w[:len(w)-1], ref.EncDER(good)) {
						t.In[at].Wit[i] = ref.Cat(bad, w[len(w)-1:])
					}
				}
			} else {
				der := ref.EncDER(good)
				i := bytes.Index(t.In[at].Script, der)
				sc := t.In[at].Script
				t.In[at].Script = ref.Cat(sc[:i-1], []byte{byte(len(bad) + 1)}, bad, sc[i+len(der):])
			}
		case "uncompressed":
			s := *sp[at]
			if s.kind != "pkh" {
				t.In[at].Vout++
				break
			}
			X, Y := ref.K1.Decompress(s.keys[0].pub)
			g := ref.FastSign(s.keys[0].d, nonce, digest(a, t, at, &s))
			t.In[at].Script = ref.Cat(pushOp(append(ref.EncDER(g), sigByte(a))), pushOp(ref.Cat([]byte{4}, ref.Pad(X, 32), ref.Pad(Y, 32))))
		}
		if raw == nil {
			raw = t.Bytes()
		}
		ok := verify(x, a, raw, u, seg)
		e := evalLax(a, raw, sp)
		x.Check(!ok || e == nil, "%s: accepts a transaction after '%s' on input %d (network: %v): %x", a.Name, ed, at, e, raw)
		x.Check(e != nil, "harness: the edit %s left the transaction valid", ed)
	}})
	// the spent output names a key or script that differs in one byte from the ones shown, which sign correctly
	mc.Register(mc.Scenario{Prop: "B04", Name: "near-owner", ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		sp, seg := pickCombo(x, a)
		at := 0
		if len(sp) > 1 {
			at = x.Choose("input", len(sp))
		}
		pos := x.Choose("pos", 20)
		s := *sp[at]
		off := 2
		if s.kind == "pkh" {
			off = 3
		}
		s.lock = append([]byte{}, s.lock...)
		s.lock[off+pos] ^= byte(mc.Pick(x, "xor", 1, 0x80))
		if a.Zen { // its blocks of constant data follow the hash
			x.Check(bytes.Equal(s.lock[25:], sp[at].lock[25:]), "harness: zen lock script")
		}
		spx := append([]*spend{}, sp...)
		spx[at] = &s
		t := baseTx(a, len(sp), 1)
		signAllRef(a, t, spx)
		if s.kind == "native" && x.Choose("own-code", 2) == 1 { // the script code names the hash of the output
			h := t.BIP143(at, ref.P2PKH(s.lock[2:22]), s.amount, uint32(sigByte(a)))
			refSign(a, t, at, &s, [][]byte{ref.FastSign(s.keys[0].d, nonceN(5), h)})
		}
		raw := t.Bytes()
		ok := verify(x, a, raw, unlocks(a, spx), seg)
		e := evalLax(a, raw, spx)
		x.Check(!ok || e == nil, "%s: accepts a transaction whose input %d (%s) shows a key or script that is not the one of the output %x (network: %v): %x", a.Name, at, s.kind, s.lock, e, raw)
		x.Check(e != nil, "harness: the network accepts it")
	}})
	// the outputs the transaction is checked against
	mc.Register(mc.Scenario{Prop: "B04", Name: "spent-data", ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		sp, seg := pickCombo(x, a)
		at := 0
		if len(sp) > 1 {
			at = x.Choose("input", len(sp))
		}
		t := baseTx(a, len(sp), 1)
		signAllRef(a, t, sp)
		u := unlocks(a, sp)
		ed := mc.Pick(x, "edit", "amount", "lock", "redeem", "swap", "missing", "extra", "other-key", "empty-lock", "segwit-flag")
		s := *sp[at]
		spx := append([]*spend{}, sp...)
		spx[at] = &s
		switch ed {
		case "amount":
			committed := a.ForkID || s.kind == "native" || s.kind == "wrapped" || (s.kind == "multi" && seg)
			d := mc.Pick(x, "delta", uint64(1), 1<<32, 1<<63, 0xffffffffffffffff)
			if !committed {
				x.Outcome("amount not committed to")
				return
			}
			u[at].Amount += d
			s.amount += d
		case "lock":
			p := x.Choose("pos", len(s.lock))
			if a.Zen && p >= 25 && !x.Deep && p > 30 && p < 55 {
				p = 26
			}
			l := append([]byte{}, s.lock...)
			l[p] ^= byte(mc.Pick(x, "xor", 1, 0x80))
			s.lock = l
			u[at].Lock = hx(l)
		case "redeem":
			if len(s.redeem) == 0 {
				x.Outcome("no redeem script")
				return
			}
			p := x.Choose("pos", len(s.redeem))
			l := append([]byte{}, s.redeem...)
			l[p] ^= byte(mc.Pick(x, "xor", 1, 0x80))
			u[at].Redeem = hx(l)
		case "swap":
			if len(sp) < 2 {
				x.Outcome("one input")
				return
			}
			u[0], u[1] = u[1], u[0]
			spx[0], spx[1] = sp[1], sp[0]
		case "missing":
			u = u[:len(u)-1]
			spx = spx[:len(spx)-1]
		case "extra":
			u = append(u, u[0])
			spx = append(spx, spx[0])
		case "other-key":
			if s.kind == "multi" {
				s = *newSpend(a, "multi", seg, s.amount, 2, ordinary[9], ordinary[10], ordinary[11])
			} else {
				s = *newSpend(a, s.kind, seg, s.amount, 0, ordinary[9])
			}
			u[at] = s.unlock(a)
		case "empty-lock":
			s.lock = nil
			u[at].Lock = ""
		case "segwit-flag":
			if !a.SegParam || !a.Segwit {
				x.Outcome("no flag")
				return
			}
			// whichever way the flag is set, what verifies must be valid
			seg = !seg
		}
		raw := t.Bytes()
		ok := verify(x, a, raw, u, seg)
		e := evalLax(a, raw, spx)
		x.Check(!ok || e == nil, "%s: accepts with altered spent data (%s, input %d; network: %v)", a.Name, ed, at, e)
	}})
	// a witness-form output claimed to be a legacy one: the signature then covers the wrong digest
	mc.Register(mc.Scenario{Prop: "B04", Name: "wrong-form", ShardK: 2, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		if a.Zen || a.SegAlways || !a.Segwit {
			x.Outcome("one form only")
			return
		}
		claim := mc.Pick(x, "claimed-segwit", false, true)
		real := newSpend(a, "multi", !claim, 100000, 2, ordinary[0], ordinary[1], ordinary[2])
		fake := newSpend(a, "multi", claim, 100000, 2, ordinary[0], ordinary[1], ordinary[2])
		t := baseTx(a, 1, 1)
		signAllRef(a, t, []*spend{fake})
		ok := verify(x, a, t.Bytes(), unlocks(a, []*spend{real}), claim)
		e := evalLax(a, t.Bytes(), []*spend{real})
		x.Check(!ok || e == nil, "%s: accepts a spend in the form the spent output does not have (network: %v)", a.Name, e)
	}})
	// more inputs, of every kind in turn; one of them is not good
	mc.Register(mc.Scenario{Prop: "B04", Name: "one-of-many", ShardK: 5, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		seg := mc.Pick(x, "segwit", segChoices(a)...)
		nin := mc.Pick(x, "ins", 3, 4, 5, 9)
		at := x.Choose("input", nin)
		ed := mc.Pick(x, "edit", "sig", "sig-end", "key", "unsigned", "foreign", "foreign-pub", "other-tx", "copy", "lock", "amount", "sequence", "vout", "txid", "intact")
		ks := kindsFor(a, seg, false)
		kinds := ks
		if x.Choose("mixed", 2) == 0 {
			kinds = ks[:1]
		}
		var sp []*spend
		for i := 0; i < nin; i++ {
			k := kinds[i%len(kinds)]
			if k == "multi" {
				sp = append(sp, newSpend(a, k, seg, uint64(1000+i), 2, ordinary[i], ordinary[i+1], ordinary[i+2]))
			} else {
				sp = append(sp, newSpend(a, k, seg, uint64(1000+i), 0, ordinary[i]))
			}
		}
		t := baseTx(a, nin, 3)
		signAllRef(a, t, sp)
		u := unlocks(a, sp)
		s := *sp[at]
		spx := append([]*spend{}, sp...)
		spx[at] = &s
		in := &t.In[at]
		sigs := func(tx *ref.BTx, who ...key) (g [][]byte) {
			for k := 0; k < len(s.keys) && (k == 0 || k < s.m); k++ {
				d := s.keys[k].d
				if len(who) > k {
					d = who[k].d
				}
				g = append(g, ref.FastSign(d, nonceN(900+k), digest(a, tx, at, &s)))
			}
			return
		}
		where := func() []byte { // the bytes that hold the first signature
			if len(in.Wit) > 2 {
				return in.Wit[1]
			} else if len(in.Wit) > 0 {
				return in.Wit[0]
			}
			if s.kind == "multi" {
				return in.Script[2:]
			}
			return in.Script[1:]
		}
		switch ed {
		case "sig":
			where()[10] ^= 1
		case "sig-end":
			b := where()
			b[b[1]+1] ^= 1
		case "key":
			if len(in.Wit) > 0 {
				w := append([]byte{}, in.Wit[len(in.Wit)-1]...)
				w[20] ^= 1
				in.Wit[len(in.Wit)-1] = w
			} else {
				in.Script[len(in.Script)-12] ^= 1
			}
		case "unsigned":
			in.Script, in.Wit = nil, nil
		case "foreign":
			refSign(a, t, at, &s, sigs(t, ordinary[12], ordinary[13]))
		case "foreign-pub":
			f := newSpend(a, s.kind, seg, s.amount, s.m, ordinary[12], ordinary[13], ordinary[14])
			refSign(a, t, at, f, sigs(t, ordinary[12], ordinary[13]))
		case "other-tx":
			refSign(a, t, at, &s, sigs(baseTx(a, nin, 2)))
		case "copy": // what unlocks another input
			o := t.In[(at+1)%nin]
			in.Script, in.Wit = o.Script, o.Wit
		case "lock":
			s.lock = append([]byte{}, s.lock...)
			s.lock[10] ^= 1
			u[at].Lock = hx(s.lock)
		case "amount":
			if !a.ForkID && (s.kind == "pkh" || s.kind == "multi" && !s.seg) {
				return
			}
			s.amount++
			u[at].Amount++
		case "sequence":
			in.Seq--
		case "vout":
			in.Vout ^= 1 << 8
		case "txid":
			in.TxID = append([]byte{}, in.TxID...)
			in.TxID[31] ^= 1
		}
		ok := verify(x, a, t.Bytes(), u, seg)
		e := evalLax(a, t.Bytes(), spx)
		x.Check(!ok || e == nil, "%s: accepts %d inputs with '%s' at input %d (network: %v): %x", a.Name, nin, ed, at, e, t.Bytes())
		if ed == "intact" {
			x.Check(ok && e == nil, "%s: refuses %d correctly signed inputs (network: %v): %x", a.Name, nin, e, t.Bytes())
		} else {
			x.Check(e != nil, "harness: the edit %s left the transaction valid", ed)
		}
	}})
	_ = hex.EncodeToString
}
