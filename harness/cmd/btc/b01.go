//go:build go1.21

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	. "github.com/blocktree/go-owcdrivers/zzverif/drv/btcfam"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

func seqOf(lock uint32, repl bool) uint32 {
	if repl {
		return 0xfffffffd
	}
	if lock != 0 {
		return 0xfffffffe
	}
	return 0xffffffff
}

type out struct {
	kind   string
	h      []byte
	amount uint64
}

// request and the transaction it stands for
func makeReq(a *Adapter, n Net, ids [][]byte, vouts []uint32, outs []out, lock uint32, repl bool) (*Req, *ref.BTx) {
	r := &Req{Net: n, Lock: lock, Repl: repl}
	t := &ref.BTx{Version: a.Version, Lock: lock}
	for i := range ids {
		r.Ins = append(r.Ins, Vin{TxID: hx(ref.Rev(ids[i])), Vout: vouts[i]})
		t.In = append(t.In, ref.BIn{TxID: ids[i], Vout: vouts[i], Seq: seqOf(lock, repl)})
	}
	for _, o := range outs {
		ad, s := address(n, o.kind, o.h)
		r.Outs = append(r.Outs, Vout{Address: ad, Amount: o.amount})
		t.Out = append(t.Out, ref.BOut{Value: o.amount, Script: s})
	}
	if a.Zen {
		bh := ref.Sha256([]byte("block"))
		r.BlockHash, r.BlockHeight = hx(ref.Rev(bh)), 654321
		for i := range t.Out {
			t.Out[i].Script = ref.Cat(t.Out[i].Script, zenSuffix(bh, 654321))
		}
	}
	if a.NeedsOmni {
		withOmni(r, t, &Omni{TxType: 0, PropertyId: 31, Amount: 12345678}, nil)
	}
	return r, t
}

func omniMsg(o *Omni, addrBytes []byte) []byte {
	b := ref.Cat([]byte{0, 0}, ref.BE16(uint16(o.TxType)))
	switch o.TxType {
	case 0, 22:
		b = ref.Cat(b, ref.BE32(o.PropertyId), ref.BE64(o.Amount))
	case 4, 28:
		b = append(b, o.Ecosystem)
	case 53, 70, 71, 72:
		b = ref.Cat(b, ref.BE32(o.PropertyId))
	case 55, 56:
		b = ref.Cat(b, ref.BE32(o.PropertyId), ref.BE64(o.Amount), []byte(o.Memo), []byte{0})
	case 185, 186:
		b = ref.Cat(b, ref.BE32(o.PropertyId), ref.BE64(o.Amount), addrBytes)
	}
	return ref.Cat([]byte("omni"), b)
}

func pushOp(b []byte) []byte {
	switch {
	case len(b) <= 75:
		return ref.Cat([]byte{byte(len(b))}, b)
	case len(b) <= 255:
		return ref.Cat([]byte{76, byte(len(b))}, b)
	}
	return ref.Cat([]byte{77, byte(len(b)), byte(len(b) >> 8)}, b)
}

func withOmni(r *Req, t *ref.BTx, o *Omni, addrBytes []byte) {
	r.Omni = o
	t.Out = append(t.Out, ref.BOut{Value: 0, Script: ref.Cat([]byte{0x6a}, pushOp(omniMsg(o, addrBytes)))})
}

func checkCreate(x *mc.X, a *Adapter, r *Req, want *ref.BTx) string {
	got, err := a.Create(r)
	x.Step("create "+a.Name, got, err)
	x.Check(err == nil, "%s refuses a valid request: %v", a.Name, err)
	w := hx(want.Bytes())
	x.Check(strings.EqualFold(got, w), "%s: the transaction for the request is\n   %s\n  the network's serialization of it is\n   %s", a.Name, clip(got), clip(w))
	checkDecode(x, a, got, want)
	return got
}

func clip(s string) string {
	if len(s) > 1600 {
		return s[:1500] + "..." + s[len(s)-100:]
	}
	return s
}

func checkDecode(x *mc.X, a *Adapter, tx string, want *ref.BTx) {
	b, _ := hex.DecodeString(tx)
	v, err := a.Decode(append([]byte{}, b...), false)
	x.Step("decode "+a.Name, err == nil)
	x.Check(err == nil && v != nil, "%s cannot decode its own transaction %s: %v", a.Name, clip(tx), err)
	x.Check(bytes.Equal(v.Version, ref.LE32(want.Version)), "%s: decoded version %x", a.Name, v.Version)
	x.Check(bytes.Equal(v.LockTime, ref.LE32(want.Lock)), "%s: decoded lock time %x, want %d", a.Name, v.LockTime, want.Lock)
	x.Check(len(v.Ins) == len(want.In) && v.NOut == len(want.Out), "%s: decoded %d inputs and %d outputs, want %d and %d", a.Name, len(v.Ins), v.NOut, len(want.In), len(want.Out))
	for i, in := range v.Ins {
		x.Check(in.TxID == hx(ref.Rev(want.In[i].TxID)) && in.Vout == want.In[i].Vout, "%s: decoded input %d is %s:%d, want %x:%d", a.Name, i, in.TxID, in.Vout, ref.Rev(want.In[i].TxID), want.In[i].Vout)
	}
}

var vouts32 = []uint32{0, 1, 127, 128, 255, 256, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0x01020304, 0xfffffffe, 0xffffffff}
var amounts64 = []uint64{12345, 0, 1, 0x7f, 0x80, 0xff, 0x100, 546, 0xffff, 0x10000, 0xffffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 2100000000000000, 0x0102030405060708, 1<<63 - 1, 1 << 63, 1<<64 - 1}
var locks32 = []uint32{0, 1, 255, 256, 0xffff, 499999999, 500000000, 0x7fffffff, 0x80000000, 0x01020304, 0xfffffffe, 0xffffffff}

func idPatterns(k int) [][]byte {
	a := ref.Cat(ones(31, 0), []byte{1})
	b := ref.Cat([]byte{1}, ones(31, 0))
	c := make([]byte, 32)
	for i := range c {
		c[i] = byte(i)
	}
	return [][]byte{txid(k), ones(32, 0), ones(32, 0xff), a, b, c, ref.Cat(ones(16, 0), ones(16, 0xff)), ref.Cat([]byte{0, 1}, ones(30, 7))}
}

func hashPatterns(k int) [][]byte {
	b := make([]byte, 32)
	for i := range b {
		b[i] = byte(i + 1)
	}
	return [][]byte{ref.Sha256([]byte(fmt.Sprintf("dest%d", k))), ones(32, 0), ones(32, 0xff), b, ref.Cat(ones(12, 0), ones(20, 0xff)), ref.Cat(ones(19, 5), []byte{0}, ones(12, 0))}
}

func init() {
	mc.Register(mc.Scenario{Prop: "B01", Name: "request", Quick: 2, Thorough: 3, ShardK: 4, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		n := pickNet(x, a)
		nin := 1 + x.Choose("ins", 3)
		nout := 1 + x.Choose("outs", 3)
		var ids [][]byte
		var vs []uint32
		for i := 0; i < nin; i++ {
			ids = append(ids, mc.PickDev(x, fmt.Sprintf("txid%d", i), idPatterns(i)...))
			vs = append(vs, mc.PickDev(x, fmt.Sprintf("vout%d", i), vouts32...))
		}
		if nin > 1 && x.Dev("same-txid", 2) == 1 {
			ids[1] = ids[0]
			vs[1] = vs[0] + 1
		}
		var os []out
		for i := 0; i < nout; i++ {
			ks := addrKinds(a, n)
			// rotate the default so that mixed lists are the default
			ks = append(append([]string{}, ks[i%len(ks):]...), ks[:i%len(ks)]...)
			os = append(os, out{mc.PickDev(x, fmt.Sprintf("kind%d", i), ks...), mc.PickDev(x, fmt.Sprintf("hash%d", i), hashPatterns(i)...), mc.PickDev(x, fmt.Sprintf("amount%d", i), amounts64...)})
		}
		if nout > 1 && x.Dev("same-out", 2) == 1 {
			os[1] = os[0]
		}
		lock := mc.PickDev(x, "lock", locks32...)
		repl := x.Dev("replaceable", 2) == 1
		r, t := makeReq(a, n, ids, vs, os, lock, repl)
		checkCreate(x, a, r, t)
	}})

	counts := func(x *mc.X, label string) int {
		if x.Deep {
			return mc.Pick(x, label, 1, 2, 16, 75, 76, 127, 128, 251, 252, 253, 254, 255, 256, 257, 300, 512, 65535, 65536)
		}
		return mc.Pick(x, label, 1, 2, 16, 75, 76, 127, 128, 252, 253, 254, 255, 256, 257)
	}
	mc.Register(mc.Scenario{Prop: "B01", Name: "counts", ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		which := mc.Pick(x, "vary", "ins", "outs", "both")
		c := counts(x, "count")
		nin, nout := 1, 1
		if which != "outs" {
			nin = c
		}
		if which != "ins" {
			nout = c
		}
		if c > 1000 && a.Name != "btc" && a.Name != "like" && a.Name != "bch" {
			x.Outcome("skipped")
			return
		}
		n := a.Nets[0]
		var ids [][]byte
		var vs []uint32
		for i := 0; i < nin; i++ {
			ids = append(ids, txid(i))
			vs = append(vs, uint32(i))
		}
		var os []out
		ks := addrKinds(a, n)
		for i := 0; i < nout; i++ {
			os = append(os, out{ks[i%len(ks)], ref.Sha256([]byte{byte(i), byte(i >> 8)}), uint64(i)})
		}
		r, t := makeReq(a, n, ids, vs, os, 0, false)
		checkCreate(x, a, r, t)
	}})

	// every output address hash byte and every txid byte reaches the transaction
	mc.Register(mc.Scenario{Prop: "B01", Name: "every-byte", ShardK: 3, Fn: func(x *mc.X) {
		a := pickAdapter(x)
		n := a.Nets[0]
		ks := addrKinds(a, n)
		kind := mc.Pick(x, "kind", append([]string{"txid"}, ks...)...)
		l := 32
		if kind != "txid" && kind != "wsh" {
			l = 20
		}
		pos := x.Choose("pos", l)
		v := mc.Pick(x, "value", 0, 1, 0x7f, 0x80, 0xff)
		h, id := ref.Sha256([]byte("dest0")), txid(0)
		os := []out{{"pkh", h, 777}}
		if kind == "txid" {
			id[pos] = byte(v)
		} else {
			h[pos] = byte(v)
			os = []out{{kind, h, 777}}
		}
		r, t := makeReq(a, n, [][]byte{id}, []uint32{1}, os, 0, false)
		checkCreate(x, a, r, t)
	}})

	mc.Register(mc.Scenario{Prop: "B01", Name: "omni-payload", Quick: 2, Thorough: 3, ShardK: 3, Fn: func(x *mc.X) {
		var ad []*Adapter
		for _, a := range All {
			if a.HasOmni {
				ad = append(ad, a)
			}
		}
		if len(ad) == 0 {
			return
		}
		i := x.Choose("driver", len(ad))
		a := ad[i]
		x.Note("%s", a.Name)
		n := pickNet(x, a)
		o := &Omni{TxType: mc.Pick(x, "type", 0, 4, 22, 28, 53, 55, 56, 70, 71, 72, 185, 186)}
		o.PropertyId = mc.PickDev(x, "property", uint32(31), 0, 1, 255, 256, 65536, 0x01020304, 0x7fffffff, 2147484026, 0xffffffff)
		o.Amount = mc.PickDev(x, "amount", amounts64...)
		o.Ecosystem = mc.PickDev(x, "ecosystem", byte(1), byte(2), byte(0), byte(255))
		var ab []byte
		if o.TxType == 55 || o.TxType == 56 {
			o.Memo = strings.Repeat("m", mc.Pick(x, "memo-len", 0, 1, 2, 54, 55, 56, 57, 58, 59, 60, 74, 75, 76, 127, 128, 233, 234, 235, 236, 237, 254, 255))
			if x.Dev("memo-bytes", 2) == 1 && len(o.Memo) > 3 {
				o.Memo = "\xff\x80" + "é" + o.Memo[4:]
			}
		}
		if o.TxType == 185 || o.TxType == 186 {
			k := mc.Pick(x, "freeze-kind", "pkh", "sh")
			h := mc.PickDev(x, "freeze-hash", hashPatterns(9)...)
			o.Address, _ = address(n, k, h)
			t := nets[n.Name]
			if k == "pkh" {
				ab = ref.Cat(t.pkh, h[:20])
			} else {
				ab = ref.Cat(t.sh, h[:20])
			}
		}
		nout := 1 + x.Dev("outs", 2)
		var os []out
		for i := 0; i < nout; i++ {
			os = append(os, out{mc.PickDev(x, fmt.Sprintf("kind%d", i), "pkh", "sh"), ref.Sha256([]byte{byte(i)}), 546})
		}
		ids, vs := [][]byte{txid(0)}, []uint32{1}
		if x.Dev("second-input", 2) == 1 {
			ids, vs = append(ids, txid(1)), append(vs, 0)
		}
		lock := mc.PickDev(x, "lock", 0, uint32(1), 500000, 0xfffffffe, 0xffffffff)
		r, t := makeReq(a, n, ids, vs, os, lock, x.Dev("replaceable", 2) == 1)
		if a.NeedsOmni {
			t.Out = t.Out[:len(t.Out)-1]
		}
		withOmni(r, t, o, ab)
		checkCreate(x, a, r, t)
	}})

	mc.Register(mc.Scenario{Prop: "B01", Name: "cxc-assets", Quick: 2, Thorough: 3, ShardK: 3, Fn: func(x *mc.X) {
		a := ByName("cxc")
		if a == nil {
			return
		}
		n := pickNet(x, a)
		na := 1 + x.Choose("assets", 3)
		lock := mc.PickDev(x, "lock", locks32...)
		repl := x.Dev("replaceable", 2) == 1
		nin := 1 + x.Choose("ins", 2)
		var ids [][]byte
		var vs []uint32
		for i := 0; i < nin; i++ {
			ids = append(ids, mc.PickDev(x, fmt.Sprintf("txid%d", i), idPatterns(i)...))
			vs = append(vs, mc.PickDev(x, fmt.Sprintf("vout%d", i), vouts32...))
		}
		ks := addrKinds(a, n)
		ch := out{mc.PickDev(x, "change-kind", ks...), mc.PickDev(x, "change-hash", hashPatterns(7)...), mc.PickDev(x, "change", amounts64...)}
		r, t := makeReq(a, n, ids, vs, []out{ch}, lock, repl)
		chOut := t.Out[0]
		t.Out = nil
		for i := 0; i < na; i++ {
			id := mc.PickDev(x, fmt.Sprintf("asset%d", i), ref.Sha256([]byte{byte(i)})[:16], ones(16, 0), ones(16, 0xff), ref.Cat(ones(8, 0), ones(8, 1)))
			k := mc.PickDev(x, fmt.Sprintf("kind%d", i), append(append([]string{}, ks[i%len(ks):]...), ks[:i%len(ks)]...)...)
			h := mc.PickDev(x, fmt.Sprintf("hash%d", i), hashPatterns(i)...)
			am := mc.PickDev(x, fmt.Sprintf("amount%d", i), amounts64...)
			ad, s := address(n, k, h)
			r.Assets = append(r.Assets, Asset{TxID: hx(ref.Rev(id)), Address: ad, Amount: am})
			pl := ref.Cat([]byte("spkq"), id, ref.LE64(am))
			t.Out = append(t.Out, ref.BOut{Value: 0, Script: ref.Cat(s, pushOp(pl), []byte{0x75})})
		}
		t.Out = append(t.Out, chOut)
		checkCreate(x, a, r, t)
	}})

	mc.Register(mc.Scenario{Prop: "B01", Name: "zen-block", Quick: 2, Thorough: 3, Fn: func(x *mc.X) {
		a := ByName("zen")
		if a == nil {
			return
		}
		h := mc.Pick(x, "height", 1, 16, 17, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 142091, 8388607, 8388608, 16777215, 16777216, 2147483647, 2147483648, 4294967295)
		bh := mc.PickDev(x, "block", idPatterns(5)...)
		nout := 1 + x.Choose("outs", 3)
		var os []out
		for i := 0; i < nout; i++ {
			os = append(os, out{mc.PickDev(x, fmt.Sprintf("kind%d", i), "pkh", "sh"), mc.PickDev(x, fmt.Sprintf("hash%d", i), hashPatterns(i)...), mc.PickDev(x, fmt.Sprintf("amount%d", i), amounts64...)})
		}
		lock := mc.PickDev(x, "lock", 0, uint32(1), 500000, 0xfffffffe, 0xffffffff)
		r, t := makeReq(a, a.Nets[0], [][]byte{txid(0)}, []uint32{1}, os, lock, x.Dev("replaceable", 2) == 1)
		r.BlockHash, r.BlockHeight = hx(ref.Rev(bh)), uint64(h)
		got, err := a.Create(r)
		x.Step("create zen", got, err)
		x.Check(err == nil, "zen refuses a valid request: %v", err)
		b, _ := hex.DecodeString(got)
		p, perr := ref.ParseBTx(b)
		x.Check(perr == nil, "zen: malformed transaction %s", got)
		x.Check(len(p.Out) == len(t.Out), "zen: %d outputs", len(p.Out))
		for i, o := range p.Out {
			_, s := address(a.Nets[0], os[i].kind, os[i].h)
			pre := ref.Cat(s, []byte{0x20}, bh)
			x.Check(o.Value == os[i].amount && bytes.HasPrefix(o.Script, pre), "zen: output %d is %d to %x", i, o.Value, o.Script)
			rest := o.Script[len(pre):]
			// the height is a script number: small values may use the short opcodes
			var num int64 = -1
			if len(rest) >= 1 && rest[0] >= 0x51 && rest[0] <= 0x60 {
				num = int64(rest[0] - 0x50)
				rest = rest[1:]
			} else if len(rest) >= 1 && int(rest[0]) <= 5 && len(rest) > int(rest[0]) {
				k := int(rest[0])
				num = 0
				for j := k; j >= 1; j-- {
					num = num<<8 | int64(rest[j])
				}
				if k > 0 && rest[k]&0x80 != 0 {
					num = -1
				}
				if k > 1 && rest[k] == 0 && rest[k-1]&0x80 == 0 {
					num = -2
				}
				rest = rest[1+k:]
			}
			x.Check(num == int64(h) && len(rest) == 1 && rest[0] == 0xb4, "zen: output %d carries height %d (script %x), want %d", i, num, o.Script, h)
			p.Out[i].Script = t.Out[i].Script
		}
		sameContent(x, "zen", p, t)
	}})
}
