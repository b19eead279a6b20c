//go:build go1.21

package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"hash/crc32"
	"strings"

	"github.com/blocktree/go-owcdrivers/addressEncoder"
	"github.com/blocktree/go-owcdrivers/addressEncoder/bech32m"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

func main() { mc.Main() }

func pickProfile(x *mc.X, label string) (*ref.Profile, addressEncoder.AddressType) {
	i := x.Choose(label, len(profiles))
	x.Note("%s", profiles[i].Ref.Name)
	return &profiles[i].Ref, profiles[i].Impl
}

// payload bases: all zero, all ones, counting, hash-like
func basePayload(kind, n int) []byte {
	b := make([]byte, n)
	switch kind {
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] = byte(i + 1)
		}
	case 3:
		h := ref.Sha256([]byte{byte(n)})
		for i := range b {
			b[i] = h[i%32] ^ byte(i/32)
		}
	}
	return b
}

var quickVals = []int{0, 1, 2, 0x39, 0x3a, 0x3b, 0x7f, 0x80, 0xfe, 0xff}

func pickVal(x *mc.X) byte {
	if x.Deep {
		return byte(x.Choose("value", 256))
	}
	return byte(mc.Pick(x, "value", quickVals...))
}

func lens(p *ref.Profile) []int {
	if p.Kind == "bech32" && len(p.Pre) > 0 {
		return []int{20, 32}
	}
	return []int{p.Len}
}

func roundTrip(x *mc.X, p *ref.Profile, t addressEncoder.AddressType, b []byte) {
	want := p.Encode(b)
	arg := append([]byte{}, b...)
	got := addressEncoder.AddressEncode(arg, t)
	x.Step("AddressEncode", got)
	x.Check(got == want, "%s: payload %x encodes to %q, the format prescribes %q", p.Name, b, got, want)
	back, err := addressEncoder.AddressDecode(got, t)
	x.Step("AddressDecode", back, err)
	exp := b
	if p.Kind == "eth" {
		exp = b[len(b)-20:]
	}
	x.Check(err == nil, "%s: %q (payload %x) does not decode: %v", p.Name, got, b, err)
	x.Check(bytes.Equal(back, exp), "%s: %q decodes to %x, want %x", p.Name, got, back, exp)
}

func init() {
	// ------------------------------------------------------------ A01
	mc.Register(mc.Scenario{Prop: "A01", Name: "payload-byte", ShardK: 2, Fn: func(x *mc.X) {
		p, t := pickProfile(x, "profile")
		n := mc.Pick(x, "len", lens(p)...)
		base := x.Choose("base", 4)
		pos := x.Choose("pos", n)
		v := pickVal(x)
		b := basePayload(base, n)
		if p.Kind == "cash" && pos == 0 {
			v &= 0x0f // type field is four bits
		}
		b[pos] = v
		if p.Kind == "cash" {
			b[0] &= 0x0f
		}
		roundTrip(x, p, t, b)
	}})
	mc.Register(mc.Scenario{Prop: "A01", Name: "leading-zeros", Fn: func(x *mc.X) {
		p, t := pickProfile(x, "profile")
		n := mc.Pick(x, "len", lens(p)...)
		k := x.Choose("zeros", n+1)
		tail := mc.Pick(x, "tail", 0x01, 0xff, 0x80)
		side := mc.Pick(x, "side", "leading", "trailing")
		b := make([]byte, n)
		for i := k; i < n; i++ {
			b[i] = byte(tail)
		}
		if side == "trailing" {
			b = ref.Rev(b)
		}
		if p.Kind == "cash" {
			b[0] &= 0x0f
		}
		roundTrip(x, p, t, b)
	}})
	mc.Register(mc.Scenario{Prop: "A01", Name: "from-public-key", Fn: func(x *mc.X) {
		p, t := pickProfile(x, "profile")
		if ref.HashKind(p.Hash, nil) == nil || p.Kind == "bech32" || p.Kind == "cash" || p.Name == "XTZ_mainnetPrivate_p2sk" {
			return
		}
		n := mc.Pick(x, "keylen", 33, 65, 64, 32, 1, 128)
		if n == p.Len {
			return
		}
		base := x.Choose("base", 4)
		k := basePayload(base, n)
		got := addressEncoder.AddressEncode(append([]byte{}, k...), t)
		x.Step("AddressEncode", got)
		want := p.Encode(ref.HashKind(p.Hash, k))
		x.Check(got == want, "%s: key %x gives address %q, want %q", p.Name, k, got, want)
	}})
	mc.Register(mc.Scenario{Prop: "A01", Name: "base58-short-strings", Fn: func(x *mc.X) {
		al := mc.Pick(x, "alphabet", ref.B58, ref.B58XRP)
		a := addressEncoder.NewBase58Alphabet(al)
		n := x.Choose("len", 4)
		b0 := 0
		if n > 0 {
			b0 = x.Choose("first", 256)
		}
		b := make([]byte, n)
		for i := 0; i < 256*256; i++ {
			if n < 2 && i > 0 {
				break
			}
			if n == 2 && i > 255 {
				break
			}
			if n == 3 && !x.Deep && i%17 != 0 {
				continue
			}
			if n > 0 {
				b[0] = byte(b0)
			}
			if n > 1 {
				b[1] = byte(i)
			}
			if n > 2 {
				b[2] = byte(i >> 8)
			}
			s := addressEncoder.Base58Encode(b, a)
			x.Eval(1)
			if w := ref.B58Enc(b, al); s != w {
				x.Fail("base58(%x) = %q, want %q", b, s, w)
			}
			d, err := addressEncoder.Base58Decode(s, a)
			if err != nil || !bytes.Equal(d, b) {
				x.Fail("base58 decode of %q = %x, %v, want %x", s, d, err, b)
			}
		}
		x.Step("base58 block", n, b0)
	}})
	mc.Register(mc.Scenario{Prop: "A01", Name: "base58-long-strings", Fn: func(x *mc.X) {
		al := mc.Pick(x, "alphabet", ref.B58, ref.B58XRP)
		a := addressEncoder.NewBase58Alphabet(al)
		n := x.Choose("len", 97)
		base := x.Choose("base", 4)
		z := x.Choose("zeros", 4)
		b := basePayload(base, n)
		for i := 0; i < z && i < n; i++ {
			b[i] = 0
		}
		s := addressEncoder.Base58Encode(b, a)
		w := ref.B58Enc(b, al)
		x.Step("base58", s)
		x.Check(s == w, "base58(%x) = %q, want %q", b, s, w)
		d, err := addressEncoder.Base58Decode(s, a)
		x.Check(err == nil && bytes.Equal(d, b), "base58 decode of %q = %x, %v, want %x", s, d, err, b)
	}})
	mc.Register(mc.Scenario{Prop: "A01", Name: "base64-crc32-bech32m", Fn: func(x *mc.X) {
		const std = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
		n := x.Choose("len", 70)
		base := x.Choose("base", 4)
		b := basePayload(base, n)
		c := addressEncoder.CRC32(b)
		w := crc32.ChecksumIEEE(b)
		x.Step("CRC32", c)
		x.Check(bytes.Equal(c, []byte{byte(w >> 24), byte(w >> 16), byte(w >> 8), byte(w)}), "CRC32(%x) = %x, want %08x", b, c, w)
		enc := addressEncoder.NewEncoding(std)
		s := enc.Base64Encode(b)
		x.Step("Base64Encode", s)
		x.Check(s == base64.StdEncoding.EncodeToString(b), "base64(%x) = %q", b, s)
		d, err := enc.Base64Decode(s)
		x.Check(err == nil && bytes.Equal(d, b), "base64 decode(%q) = %x, %v", s, d, err)
		if n > 0 && n <= 40 {
			a, err := bech32m.Bech32mEncode("xch", append([]byte{}, b...), ref.B32)
			x.Step("Bech32mEncode", a, err)
			wa := ref.Bech32Raw("xch", ref.To5(b), ref.Bech32mConst)
			x.Check(err == nil && a == wa, "bech32m(%x) = %q, %v, want %q", b, a, err, wa)
			d, err := bech32m.Bech32mDecode(a, "xch", ref.B32)
			x.Check(err == nil && bytes.Equal(d, b), "bech32m decode(%q) = %x, %v", a, d, err)
		}
	}})

	// ------------------------------------------------------------ A02
	mc.Register(mc.Scenario{Prop: "A02", Name: "one-character-edit", ShardK: 3, Fn: func(x *mc.X) {
		p, t := pickProfile(x, "profile")
		if !p.HasChecksum() {
			return
		}
		n := mc.Pick(x, "len", lens(p)...)
		base := 3
		if x.Deep {
			base = x.Choose("base", 4)
		} else {
			base = mc.Pick(x, "base", 3, 0)
		}
		b := basePayload(base, n)
		if p.Kind == "cash" {
			b[0] &= 1
		}
		s := p.Encode(b)
		kind := mc.Pick(x, "edit", "replace", "delete", "insert", "swap", "double")
		pos := x.Choose("pos", len(s))
		var variants []string
		chars := p.Alpha + "0OIlb1o:i _+/\x00\x7f\x80Aa"
		switch kind {
		case "replace":
			for i := 0; i < len(chars); i++ {
				variants = append(variants, s[:pos]+chars[i:i+1]+s[pos+1:])
			}
		case "insert":
			for i := 0; i < len(chars); i++ {
				variants = append(variants, s[:pos]+chars[i:i+1]+s[pos:])
			}
			if pos == len(s)-1 {
				for i := 0; i < len(chars); i++ {
					variants = append(variants, s+chars[i:i+1])
				}
			}
		case "delete":
			variants = append(variants, s[:pos]+s[pos+1:])
		case "swap":
			if pos+1 < len(s) {
				variants = append(variants, s[:pos]+s[pos+1:pos+2]+s[pos:pos+1]+s[pos+2:])
			}
		case "double":
			variants = append(variants, s[:pos]+s[pos:pos+1]+s[pos:])
		}
		rej := 0
		for _, v := range variants {
			checkDecode(x, p, t, v)
			if v != s {
				rej++
			}
		}
		x.Step("edit", p.Name, kind, pos, base, rej)
	}})
	mc.Register(mc.Scenario{Prop: "A02", Name: "foreign-profile", ShardK: 2, Fn: func(x *mc.X) {
		p, _ := pickProfile(x, "from")
		q, t := pickProfile(x, "to")
		n := mc.Pick(x, "len", lens(p)...)
		for base := 0; base < 4; base++ {
			b := basePayload(base, n)
			if p.Kind == "cash" {
				b[0] &= 0x0f
			}
			checkDecode(x, q, t, p.Encode(b))
			if p.Kind == "bech32" || p.Kind == "cash" || p.Kind == "bech32m" {
				checkDecode(x, q, t, strings.ToUpper(p.Encode(b)))
			}
		}
		x.Step("foreign", p.Name, q.Name)
	}})
	mc.Register(mc.Scenario{Prop: "A02", Name: "wrong-shape", ShardK: 2, Fn: func(x *mc.X) {
		// right checksum and prefix, but payload of another length / witness version / padding
		p, t := pickProfile(x, "profile")
		delta := mc.Pick(x, "delta", -20, -12, -8, -4, -3, -2, -1, 1, 2, 3, 4, 8, 12, 20)
		if p.Len+delta < 0 {
			return
		}
		for base := 0; base < 4; base++ {
			q := *p
			b := basePayload(base, p.Len+delta)
			if p.Kind == "eth" || p.Kind == "xmr" || (p.Kind == "cash" && len(b) == 0) {
				continue
			}
			if p.Kind == "cash" {
				b[0] &= 1
			}
			checkDecode(x, p, t, q.Encode(b))
			b = basePayload(base, p.Len)
			switch p.Kind {
			case "bech32":
				for ver := byte(0); ver < 32; ver++ {
					checkDecode(x, p, t, ref.Bech32Raw(p.Check, ref.Cat([]byte{ver}, ref.To5(b)), 1))
					checkDecode(x, p, t, ref.Bech32Raw(p.Check, ref.Cat([]byte{ver}, ref.To5(basePayload(base, 32))), 1))
				}
				checkDecode(x, p, t, ref.Bech32Raw(p.Check, ref.To5(b), ref.Bech32mConst))
				checkDecode(x, p, t, ref.Bech32Raw(p.Check, ref.Cat(p.Pre, ref.To5(b)), ref.Bech32mConst))
			case "bech32m":
				checkDecode(x, p, t, ref.Bech32Raw(p.Check, ref.To5(b), 1))
				d := ref.To5(b)
				d[len(d)-1] |= 1
				checkDecode(x, p, t, ref.Bech32Raw(p.Check, d, ref.Bech32mConst))
				checkDecode(x, p, t, ref.Bech32Raw(p.Check, append(ref.To5(b), 0), ref.Bech32mConst))
			case "cash":
				for ty := 0; ty < 16; ty++ {
					checkDecode(x, p, t, ref.CashEnc(p.Check, byte(ty), b[1:]))
				}
				checkDecode(x, p, t, ref.CashEnc("bchtest", 0, b[1:]))
				checkDecode(x, p, t, ref.CashEnc("bchreg", 0, b[1:]))
				s := ref.CashEnc(p.Check, 0, b[1:])
				checkDecode(x, p, t, s[strings.Index(s, ":")+1:])
			}
		}
		x.Step("shape", p.Name, delta)
	}})
	mc.Register(mc.Scenario{Prop: "A02", Name: "address-check", ShardK: 2, Fn: func(x *mc.X) {
		sym := mc.Pick(x, "symbol", symbols...)
		p, _ := pickProfile(x, "address-of")
		n := mc.Pick(x, "len", lens(p)...)
		base := x.Choose("base", 4)
		b := basePayload(base, n)
		if p.Kind == "cash" {
			b[0] &= 1
		}
		s := p.Encode(b)
		checkSymbol(x, sym, s)
		own := false
		for _, name := range symbolProfiles[sym] {
			if name == p.Name {
				own = true
			}
		}
		if own && p.HasChecksum() {
			for pos := 0; pos < len(s); pos++ {
				for _, c := range []byte("q2zZ") {
					checkSymbol(x, sym, s[:pos]+string([]byte{c})+s[pos+1:])
				}
				checkSymbol(x, sym, s[:pos]+s[pos+1:])
			}
		}
	}})

	// ------------------------------------------------------------ A03
	mc.Register(mc.Scenario{Prop: "A03", Name: "address-truncations", ShardK: 2, Fn: func(x *mc.X) {
		p, t := pickProfile(x, "profile")
		n := mc.Pick(x, "len", lens(p)...)
		base := x.Choose("base", 4)
		b := basePayload(base, n)
		s := p.Encode(b)
		for i := 0; i <= len(s); i++ {
			total(x, p, t, s[:i])
			total(x, p, t, s[i:])
			total(x, p, t, s+s[:i])
			total(x, p, t, s[:i]+"\xc3\xa9"+s[i:])
			total(x, p, t, s[:i]+"\u4e2d")
		}
		total(x, p, t, strings.Repeat(s, 20))
		total(x, p, t, strings.Repeat("1", 300))
		total(x, p, t, strings.Repeat("z", 300))
		x.Step("truncations", p.Name, base)
	}})
	mc.Register(mc.Scenario{Prop: "A03", Name: "address-characters", ShardK: 2, Fn: func(x *mc.X) {
		p, t := pickProfile(x, "profile")
		s := p.Encode(basePayload(2, lens(p)[0]))
		for _, c := range characters() {
			for _, i := range []int{0, 1, len(s) / 2, len(s) - 1} {
				total(x, p, t, s[:i]+c+s[i+1:])
			}
			total(x, p, t, c)
			total(x, p, t, s+c)
		}
		x.Step("characters", p.Name)
	}})
	mc.Register(mc.Scenario{Prop: "A03", Name: "address-short-text", ShardK: 2, Fn: func(x *mc.X) {
		p, t := pickProfile(x, "profile")
		stem := mc.Pick(x, "stem", "", "bc1", "0x", "hx", "EOS", "PUB_K1_", "ak_", "bitcoincash:", "BITCOINCASH:", "xch1", "1", ":", "q")
		eachShort(x.Deep, func(s string) { total(x, p, t, stem+s) })
		x.Step("short", p.Name, stem)
	}})
	mc.Register(mc.Scenario{Prop: "A03", Name: "address-check-text", ShardK: 2, Fn: func(x *mc.X) {
		sym := mc.Pick(x, "symbol", symbols...)
		stem := mc.Pick(x, "stem", "", "bc", "tb", "t", "ltc", "tltc", "l", "bitcoincash", "b", "tz", "H", "D", "n", "T", "h", "hx", "A", "S", "2", "0x", "Q", "M", "m", "L", "3", "1")
		eachShort(x.Deep, func(s string) {
			x.Eval(1)
			ok, err := addressEncoder.AddressCheck(stem+s, sym)
			if sym != "XXX" && ok {
				x.Fail("AddressCheck(%q, %s) = true, %v", stem+s, sym, err)
			}
		})
		x.Step("check", sym, stem)
	}})
}

// checkDecode compares one decoding with the reference verdict.
func checkDecode(x *mc.X, p *ref.Profile, t addressEncoder.AddressType, s string) {
	want, werr := p.Decode(s)
	got, err := addressEncoder.AddressDecode(s, t)
	x.Eval(1)
	if werr != nil {
		if err == nil {
			x.Fail("%s: invalid address %q is accepted and decodes to %x", p.Name, s, got)
		}
		return
	}
	if err != nil {
		if (p.Kind == "bech32" || p.Kind == "bech32m" || p.Kind == "cash") && s == strings.ToUpper(s) {
			return // the upper-case spelling is optional; it may be refused but not misread
		}
		if p.Kind == "bech32" && len(want) != p.Len && len(p.Pre) == 0 {
			return // a payload length the profile does not name may be refused
		}
		x.Fail("%s: valid address %q is rejected: %v", p.Name, s, err)
	}
	if !bytes.Equal(got, want) {
		x.Fail("%s: %q decodes to %x, want %x", p.Name, s, got, want)
	}
}

// total: no panic, and never "success" without the profile's payload.
func total(x *mc.X, p *ref.Profile, t addressEncoder.AddressType, s string) {
	x.Eval(1)
	got, err := addressEncoder.AddressDecode(s, t)
	if err == nil && len(got) == 0 {
		x.Fail("%s: %q decodes to nothing without an error", p.Name, s)
	}
}

const shortAlpha = "1qzZ0l:x-A\x00\xff"

func eachShort(deep bool, f func(string)) {
	max := 2
	if deep {
		max = 4
	}
	var rec func(s string, n int)
	rec = func(s string, n int) {
		f(s)
		if n == 0 {
			return
		}
		for i := 0; i < len(shortAlpha); i++ {
			rec(s+shortAlpha[i:i+1], n-1)
		}
	}
	rec("", max)
	for n := 3; n < 15; n++ { // runs of one symbol (checksum-sized texts)
		for i := 0; i < len(shortAlpha); i++ {
			f(strings.Repeat(shortAlpha[i:i+1], n))
		}
	}
}

var symbolProfiles = map[string][]string{
	"BTC":  {"BTC_mainnetAddressP2PKH", "BTC_mainnetAddressP2SH", "BTC_mainnetAddressBech32V0", "BTC_testnetAddressP2PKH", "BTC_testnetAddressP2SH", "BTC_testnetAddressBech32V0"},
	"ZEC":  {"ZEC_mainnet_t_AddressP2PKH", "ZEC_mainnet_t_AddressP2SH", "ZEC_testnet_t_AddressP2PKH", "ZEC_testnet_t_AddressP2SH"},
	"LTC":  {"LTC_mainnetAddressP2PKH", "LTC_mainnetAddressP2SH", "LTC_mainnetAddressP2SH2", "LTC_mainnetAddressBech32V0", "LTC_testnetAddressP2PKH", "LTC_testnetAddressP2SH", "LTC_testnetAddressBech32V0"},
	"BCH":  {"BCH_mainnetAddressLegacy", "BCH_mainnetAddressCash"},
	"XTZ":  {"XTZ_mainnetAddress_tz1", "XTZ_mainnetAddress_tz2", "XTZ_mainnetAddress_tz3"},
	"HC":   {"HC_mainnetPublicAddress"},
	"ETH":  {"ETH_mainnetPublicAddress"},
	"QTUM": {"QTUM_mainnetAddressP2PKH", "QTUM_mainnetAddressP2SH", "QTUM_testnetAddressP2PKH", "QTUM_testnetAddressP2SH"},
	"DCRD": {"DCRD_mainnetAddressP2PKH", "DCRD_mainnetAddressP2PK", "DCRD_mainnetAddressPKHEdwards", "DCRD_mainnetAddressPKHSchnorr", "DCRD_mainnetAddressP2SH", "DCRD_mainnetAddressPrivate",
		"DCRD_testnetAddressP2PKH", "DCRD_testnetAddressP2PK", "DCRD_testnetAddressPKHEdwards", "DCRD_testnetAddressP2PKHSchnorr", "DCRD_testnetAddressP2SH", "DCRD_testnetAddressPrivate",
		"DCRD_simnetAddressP2PKH", "DCRD_simnetAddressP2PK", "DCRD_simnetAddressPKHEdwards", "DCRD_simnetAddressPKHSchnorr", "DCRD_simnetAddressP2SH"},
	"NAS":  {"NAS_AccountAddress", "NAS_SmartContractAddress"},
	"TRX":  {"TRON_mainnetAddress"},
	"ICX":  {"ICX_walletAddress"},
	"VSYS": {"VSYS_mainnetAddress"},
	"XXX":  {},
}

var symbols = []string{"BTC", "ZEC", "LTC", "BCH", "XTZ", "HC", "ETH", "QTUM", "DCRD", "NAS", "TRX", "ICX", "VSYS", "XXX"}

func checkSymbol(x *mc.X, sym, s string) {
	want := sym == "XXX" // symbols the library does not know are documented as unchecked
	for _, name := range symbolProfiles[sym] {
		for i := range profiles {
			if profiles[i].Ref.Name == name {
				if _, err := profiles[i].Ref.Decode(s); err == nil {
					want = true
				}
			}
		}
	}
	ok, err := addressEncoder.AddressCheck(s, sym)
	x.Step("AddressCheck", sym, s, ok)
	x.Check(ok == want, "AddressCheck(%q, %s) = %v (%v), want %v", s, sym, ok, err, want)
	x.Check(ok == (err == nil), "AddressCheck(%q, %s) = %v with error %v", s, sym, ok, err)
}

var _ = fmt.Sprint
