//go:build go1.21

package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	. "github.com/blocktree/go-owcdrivers/zzverif/drv/btcfam"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

var hx = hex.EncodeToString

// ---- networks as the chains define them (not read from the drivers)

type truth struct {
	pkh, sh, sh2 []byte
	hrp          string
}

var nets = map[string]truth{
	"BTCMainnetAddressPrefix": {[]byte{0x00}, []byte{0x05}, nil, "bc"},
	"BTCTestnetAddressPrefix": {[]byte{0x6f}, []byte{0xc4}, nil, "tb"},
	"BCHMainnetAddressPrefix": {[]byte{0x00}, []byte{0x05}, nil, "bc"},
	"BCHTestnetAddressPrefix": {[]byte{0x6f}, []byte{0xc4}, nil, "tb"},
	"LTCMainnetAddressPrefix": {[]byte{0x30}, []byte{0x05}, []byte{0x32}, "ltc"},
	"LTCTestnetAddressPrefix": {[]byte{0x6f}, []byte{0xc4}, []byte{0x3a}, "tltc"},
	"ZECMainnetAddressPrefix": {[]byte{0x1c, 0xb8}, []byte{0x1c, 0xbd}, nil, ""},
	"ZECTestnetAddressPrefix": {[]byte{0x1d, 0x25}, []byte{0x1c, 0xba}, nil, ""},
	"HCMainnetAddressPrefix":  {[]byte{0x09, 0x7f}, []byte{0x7f}, nil, ""},
	"HCTestnetAddressPrefix":  {[]byte{0x0f, 0x21}, []byte{0x21}, nil, ""},
	"ZENMainnetAddressPrefix": {[]byte{0x20, 0x89}, []byte{0x20, 0x96}, nil, ""},
	"testnet":                 {[]byte{0x6f}, []byte{0xc4}, nil, "tb"},
}

func b58(prefix, h []byte) string {
	b := ref.Cat(prefix, h)
	return ref.B58Enc(ref.Cat(b, ref.DSha256(b)[:4]), "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
}

func segAddr(hrp string, prog []byte) string {
	return ref.Bech32Raw(hrp, append([]byte{0}, ref.To5(prog)...), 1)
}

// addrKinds: what the driver's network can be asked to pay to.
func addrKinds(a *Adapter, n Net) []string {
	t := nets[n.Name]
	k := []string{"pkh", "sh"}
	if n.P2SH != nil && t.sh2 != nil && !a.NeedsOmni {
		k = append(k, "sh2")
	}
	if a.Bech32 && !a.Zen && t.hrp != "" {
		k = append(k, "wpkh", "wsh")
	}
	return k
}

// address and the locking script it stands for
func address(n Net, kind string, h []byte) (string, []byte) {
	t := nets[n.Name]
	switch kind {
	case "pkh":
		return b58(t.pkh, h[:20]), ref.P2PKH(h[:20])
	case "sh":
		return b58(t.sh, h[:20]), ref.P2SH(h[:20])
	case "sh2":
		return b58(t.sh2, h[:20]), ref.P2SH(h[:20])
	case "wpkh":
		return segAddr(t.hrp, h[:20]), ref.WitProg(h[:20])
	case "wsh":
		return segAddr(t.hrp, h[:32]), ref.WitProg(h[:32])
	}
	panic("kind")
}

// replay-protection suffix of Zen outputs
func zenSuffix(hash []byte, height uint64) []byte {
	b := []byte{}
	for v := height; v > 0; v >>= 8 {
		b = append(b, byte(v))
	}
	if len(b) > 0 && b[len(b)-1]&0x80 != 0 {
		b = append(b, 0)
	}
	return ref.Cat([]byte{0x20}, hash, []byte{byte(len(b))}, b, []byte{0xb4})
}

func zenSuffixOK(s []byte) bool {
	return len(s) >= 35 && s[0] == 0x20 && int(s[33]) == len(s)-35 && s[len(s)-1] == 0xb4
}

func chainOf(a *Adapter) *ref.Chain {
	c := &ref.Chain{ForkID: a.ForkID, Segwit: a.Segwit}
	if a.Zen {
		c.Suffix = zenSuffixOK
	}
	return c
}

// ---- keys

type key struct {
	name string
	d    *big.Int
	pub  []byte
}

func (k key) h160() []byte { return ref.Hash160(k.pub) }
func (k key) priv() []byte { return ref.Pad(k.d, 32) }

func mkKey(name string, d *big.Int) key { return key{name, d, ref.K1Pub(d)} }

var ordinary []key // ordinary keys
var special []key  // keys whose encodings have awkward bytes

func init() {
	for i := 0; i < 16; i++ {
		ordinary = append(ordinary, mkKey(fmt.Sprintf("k%d", i), new(big.Int).SetBytes(ref.Sha256([]byte(fmt.Sprintf("key%d", i))))))
	}
	want := []struct {
		name string
		f    func(k key) bool
	}{
		{"pub-ends-ae", func(k key) bool { return k.pub[32] == 0xae }},
		{"pub-ends-ac", func(k key) bool { return k.pub[32] == 0xac }},
		{"hash-ends-ae", func(k key) bool { return k.h160()[19] == 0xae }},
		{"hash-starts-00", func(k key) bool { return k.h160()[0] == 0 }},
		{"hash-ends-00", func(k key) bool { return k.h160()[19] == 0 }},
		{"pub-x-00", func(k key) bool { return k.pub[1] == 0 }},
		{"pub-odd", func(k key) bool { return k.pub[0] == 3 }},
		{"pub-even", func(k key) bool { return k.pub[0] == 2 }},
	}
	for _, w := range want {
		for d := int64(1); ; d++ {
			if k := mkKey(w.name, big.NewInt(d)); w.f(k) {
				special = append(special, k)
				break
			}
		}
	}
	special = append(special, mkKey("n-1", new(big.Int).Sub(ref.K1.N, big.NewInt(1))))
}

// ---- spent outputs

type spend struct {
	kind   string // pkh wrapped native multi
	keys   []key
	m      int
	seg    bool // multi: witness form
	lock   []byte
	redeem []byte // what the driver is given
	amount uint64
}

func newSpend(a *Adapter, kind string, seg bool, amount uint64, m int, keys ...key) *spend {
	s := &spend{kind: kind, keys: keys, m: m, amount: amount}
	h := keys[0].h160()
	switch kind {
	case "pkh":
		s.lock = ref.P2PKH(h)
		if a.Zen {
			s.lock = ref.Cat(s.lock, zenSuffix(ref.Sha256([]byte("block")), 654321))
		}
	case "native":
		s.lock = ref.WitProg(h)
	case "wrapped":
		s.redeem = ref.WitProg(h)
		s.lock = ref.P2SH(ref.Hash160(s.redeem))
	case "multi":
		var p [][]byte
		for _, k := range keys {
			p = append(p, k.pub)
		}
		s.redeem = ref.MultiScript(m, p)
		s.seg = seg
		if seg {
			s.lock = ref.P2SH(ref.Hash160(ref.WitProg(ref.Sha256(s.redeem))))
		} else {
			s.lock = ref.P2SH(ref.Hash160(s.redeem))
		}
	}
	return s
}

func (s *spend) unlock(a *Adapter) Unlock {
	return Unlock{Lock: hx(s.lock), Redeem: hx(s.redeem), Amount: s.amount, SigType: a.SigType}
}

func unlocks(a *Adapter, sp []*spend) (u []Unlock) {
	for _, s := range sp {
		u = append(u, s.unlock(a))
	}
	return
}

func sigByte(a *Adapter) byte {
	if a.ForkID {
		return 0x41
	}
	return 1
}

// digest that consensus defines for input i
func digest(a *Adapter, t *ref.BTx, i int, s *spend) []byte {
	ht := uint32(sigByte(a))
	code := s.lock
	wit := false
	switch s.kind {
	case "native", "wrapped":
		code, wit = ref.P2PKH(s.keys[0].h160()), true
	case "multi":
		code, wit = s.redeem, s.seg
	}
	if wit || a.ForkID {
		return t.BIP143(i, code, s.amount, ht)
	}
	return t.Legacy(i, code, ht)
}

// refSign builds the unlocking data of input i independently of the driver.
func refSign(a *Adapter, t *ref.BTx, i int, s *spend, sigs [][]byte) {
	pushB := func(b []byte) []byte {
		switch {
		case len(b) == 0:
			return []byte{0}
		case len(b) <= 75:
			return ref.Cat([]byte{byte(len(b))}, b)
		case len(b) <= 255:
			return ref.Cat([]byte{76, byte(len(b))}, b)
		}
		return ref.Cat([]byte{77, byte(len(b)), byte(len(b) >> 8)}, b)
	}
	var der [][]byte
	for _, g := range sigs {
		der = append(der, append(ref.EncDER(g), sigByte(a)))
	}
	in := &t.In[i]
	in.Script, in.Wit = nil, nil
	switch s.kind {
	case "pkh":
		in.Script = ref.Cat(pushB(der[0]), pushB(s.keys[0].pub))
	case "native":
		in.Wit = [][]byte{der[0], s.keys[0].pub}
	case "wrapped":
		in.Script = pushB(s.redeem)
		in.Wit = [][]byte{der[0], s.keys[0].pub}
	case "multi":
		st := append([][]byte{nil}, der...)
		if s.seg {
			in.Script = pushB(ref.WitProg(ref.Sha256(s.redeem)))
			in.Wit = append(st, s.redeem)
		} else {
			for _, x := range append(st, s.redeem) {
				in.Script = append(in.Script, pushB(x)...)
			}
		}
	}
}

var nonce = new(big.Int).SetBytes(ref.Sha256([]byte("nonce")))

func nonceN(n int) *big.Int {
	return new(big.Int).SetBytes(ref.Sha256([]byte(fmt.Sprintf("nonce%d", n))))
}

// signAllRef signs every input with its own keys (the first m of a multisignature).
func signAllRef(a *Adapter, t *ref.BTx, sp []*spend) {
	hs := make([][]byte, len(sp))
	for i, s := range sp {
		hs[i] = digest(a, t, i, s)
	}
	for i, s := range sp {
		n := 1
		if s.kind == "multi" {
			n = s.m
		}
		var g [][]byte
		for k := 0; k < n; k++ {
			g = append(g, ref.FastSign(s.keys[k].d, nonceN(i*16+k), hs[i]))
		}
		refSign(a, t, i, s, g)
	}
}

func kindsFor(a *Adapter, seg bool, single bool) []string {
	switch {
	case a.Zen:
		return []string{"pkh"}
	case a.SegAlways:
		if single {
			return []string{"pkh", "wrapped", "native", "multi"}
		}
		return []string{"pkh", "wrapped", "native"}
	case seg:
		return []string{"pkh", "wrapped", "native", "multi"}
	}
	return []string{"pkh", "multi"}
}

func segChoices(a *Adapter) []bool {
	if a.Segwit && a.SegParam {
		return []bool{false, true}
	}
	if a.SegAlways {
		return []bool{true}
	}
	return []bool{false}
}

func pickAdapter(x *mc.X) *Adapter {
	i := x.Choose("driver", len(All))
	x.Note("%s", All[i].Name)
	return All[i]
}

func pickNet(x *mc.X, a *Adapter) Net {
	i := x.Choose("net", len(a.Nets))
	x.Note("%s", a.Nets[i].Name)
	return a.Nets[i]
}

func pickNetDev(x *mc.X, a *Adapter) Net {
	i := x.Dev("net", len(a.Nets))
	x.Note("%s", a.Nets[i].Name)
	return a.Nets[i]
}

func txid(k int) []byte { return ref.Sha256([]byte(fmt.Sprintf("tx%d", k))) } // wire order

func ones(n int, v byte) []byte { return bytes.Repeat([]byte{v}, n) }

func baseTx(a *Adapter, nin, nout int) *ref.BTx {
	t := &ref.BTx{Version: a.Version}
	for i := 0; i < nin; i++ {
		t.In = append(t.In, ref.BIn{TxID: txid(i), Vout: uint32(i), Seq: 0xffffffff})
	}
	for i := 0; i < nout; i++ {
		s := ref.P2PKH(ref.Hash160([]byte{byte(i)}))
		if a.Zen {
			s = ref.Cat(s, zenSuffix(ref.Sha256([]byte("block")), 654321))
		}
		t.Out = append(t.Out, ref.BOut{Value: uint64(1000 + i), Script: s})
	}
	return t
}

func sameContent(x *mc.X, who string, got, want *ref.BTx) {
	x.Check(got.Version == want.Version && got.Lock == want.Lock, "%s: version/lock time %d/%d, want %d/%d", who, got.Version, got.Lock, want.Version, want.Lock)
	x.Check(len(got.In) == len(want.In) && len(got.Out) == len(want.Out), "%s: %d inputs and %d outputs, want %d and %d", who, len(got.In), len(got.Out), len(want.In), len(want.Out))
	for i := range got.In {
		g, w := got.In[i], want.In[i]
		x.Check(bytes.Equal(g.TxID, w.TxID) && g.Vout == w.Vout && g.Seq == w.Seq, "%s: input %d is %x:%d seq %08x, want %x:%d seq %08x", who, i, g.TxID, g.Vout, g.Seq, w.TxID, w.Vout, w.Seq)
	}
	for i := range got.Out {
		g, w := got.Out[i], want.Out[i]
		x.Check(g.Value == w.Value && bytes.Equal(g.Script, w.Script), "%s: output %d is %d to %x, want %d to %x", who, i, g.Value, g.Script, w.Value, w.Script)
	}
}

type combo struct {
	kinds []string
	seg   bool
}

func combos(a *Adapter, deep bool) []combo {
	var o []combo
	for _, seg := range segChoices(a) {
		for _, k := range kindsFor(a, seg, true) {
			if a.SegAlways && k == "multi" {
				continue // not verifiable by this driver
			}
			if seg && !a.SegAlways && k == "pkh" {
				continue
			}
			o = append(o, combo{[]string{k}, seg})
		}
	}
	if a.Segwit {
		o = append(o, combo{[]string{"pkh", "native"}, true}, combo{[]string{"wrapped", "pkh"}, true})
	} else {
		o = append(o, combo{[]string{"pkh", "pkh"}, false})
	}
	if deep && !a.Zen && !a.SegAlways {
		o = append(o, combo{[]string{"pkh", "multi"}, a.Segwit}, combo{[]string{"multi", "multi"}, a.Segwit && a.SegParam})
	}
	return o
}

func pickCombo(x *mc.X, a *Adapter) ([]*spend, bool) {
	cs := combos(a, x.Deep)
	// an address that is used twice
	if a.Segwit {
		cs = append(cs, combo{[]string{"native", "native="}, true}, combo{[]string{"wrapped", "wrapped="}, true})
	} else {
		cs = append(cs, combo{[]string{"pkh", "pkh="}, false})
	}
	c := cs[x.Choose("inputs", len(cs))]
	x.Note("%s/segwit=%v", strings.Join(c.kinds, "+"), c.seg)
	var sp []*spend
	for i, k := range c.kinds {
		if k == "multi" {
			sp = append(sp, newSpend(a, k, c.seg, uint64(100000+i), 2, ordinary[3*i], ordinary[3*i+1], ordinary[3*i+2]))
		} else if b := strings.TrimSuffix(k, "="); b != k {
			sp = append(sp, newSpend(a, b, c.seg, uint64(100000+i), 0, ordinary[0]))
		} else {
			sp = append(sp, newSpend(a, k, c.seg, uint64(100000+i), 0, ordinary[i]))
		}
	}
	return sp, c.seg
}
