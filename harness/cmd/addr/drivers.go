//go:build go1.21

package main

import (
	"bytes"
	"strings"

	"github.com/blocktree/go-owcdrivers/bytomTransaction"
	"github.com/blocktree/go-owcdrivers/owkeychain"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

func (c *checkCodec) alpha() string {
	if strings.HasPrefix(c.Name, "ripple") {
		return ref.B58XRP
	}
	return ref.B58
}

func (c *checkCodec) ref(ver, hash []byte) string {
	d := ref.Cat(ver, hash)
	return ref.B58Enc(ref.Cat(d, ref.Checksum4(c.Chk, d)), c.alpha())
}

func pickCheck(x *mc.X) *checkCodec {
	i := x.Choose("codec", len(checkCodecs))
	x.Note("%s", checkCodecs[i].Name)
	return &checkCodecs[i]
}

// reference verdict of a base58check text for a codec and version
func (c *checkCodec) valid(s string, ver []byte) (v, h []byte, ok bool) {
	d, err := ref.B58Dec(s, c.alpha())
	if err != nil || len(d) < 24 {
		return nil, nil, false
	}
	if !bytes.Equal(ref.Checksum4(c.Chk, d[:len(d)-4]), d[len(d)-4:]) {
		return nil, nil, false
	}
	p := len(d) - 24
	return d[:p], d[p : len(d)-4], true
}

func init() {
	mc.Register(mc.Scenario{Prop: "A04", Name: "check-codec", ShardK: 3, Fn: func(x *mc.X) {
		c := pickCheck(x)
		ver := c.Ver[x.Choose("version", len(c.Ver))]
		x.Note("%x", ver)
		base := x.Choose("base", 4)
		pos := x.Choose("pos", 20)
		v := pickVal(x)
		h := basePayload(base, 20)
		h[pos] = v
		want := c.ref(ver, h)
		if c.Enc != nil {
			got := c.Enc(append([]byte{}, ver...), append([]byte{}, h...))
			x.Step("EncodeCheck", c.Name, got)
			x.Check(got == want, "%s encodes version %x hash %x as %q, the format is %q", c.Name, ver, h, got, want)
		}
		gv, gh, err := c.Dec(want, ver)
		x.Step("DecodeCheck", c.Name, gv, gh, err)
		x.Check(err == nil, "%s refuses the valid address %q: %v", c.Name, want, err)
		x.Check(bytes.Equal(gv, ver) && bytes.Equal(gh, h), "%s decodes %q to %x/%x, want %x/%x", c.Name, want, gv, gh, ver, h)
	}})
	mc.Register(mc.Scenario{Prop: "A04", Name: "check-codec-edits", ShardK: 3, Fn: func(x *mc.X) {
		c := pickCheck(x)
		ver := c.Ver[x.Choose("version", len(c.Ver))]
		x.Note("%x", ver)
		base := x.Choose("base", 4)
		h := basePayload(base, 20)
		s := c.ref(ver, h)
		pos := x.Choose("pos", len(s))
		n := 0
		for _, e := range edits(s, pos, c.alpha()) {
			x.Eval(1)
			gv, gh, err := c.Dec(e, ver)
			if e == s {
				continue
			}
			if v, hh, ok := c.valid(e, ver); ok {
				// a leading character edit may yield another well-formed text only if the checksum matches
				if err == nil && !(bytes.Equal(v, gv) && bytes.Equal(hh, gh)) {
					x.Fail("%s decodes %q to %x/%x, want %x/%x", c.Name, e, gv, gh, v, hh)
				}
				continue
			}
			n++
			if err == nil {
				x.Fail("%s accepts the damaged address %q (from %q) as %x/%x", c.Name, e, s, gv, gh)
			}
		}
		x.Step("edits", c.Name, ver, base, pos, n)
	}})
	mc.Register(mc.Scenario{Prop: "A04", Name: "raw-base58", ShardK: 3, Fn: func(x *mc.X) {
		i := x.Choose("codec", len(rawCodecs))
		c := &rawCodecs[i]
		x.Note("%s", c.Name)
		al := ref.B58
		if c.Xrp {
			al = ref.B58XRP
		}
		n := x.Choose("len", 90)
		base := x.Choose("base", 4)
		z := x.Choose("zeros", 4)
		t := x.Choose("tail", 3)
		b := basePayload(base, n)
		for k := 0; k < z && k < n; k++ {
			b[k] = 0
		}
		if n > 0 && t > 0 {
			b[n-1] = []byte{0, 0xff}[t-1]
		}
		s := c.Enc(append([]byte{}, b...))
		w := ref.B58Enc(b, al)
		x.Step("Encode", c.Name, s)
		x.Check(s == w, "%s: base58(%x) = %q, want %q", c.Name, b, s, w)
		d, err := c.Dec(s)
		x.Step("Decode", c.Name, d, err)
		x.Check(err == nil && bytes.Equal(d, b), "%s: base58 decode of %q = %x, %v, want %x", c.Name, s, d, err, b)
		if n > 0 && z == 0 && t == 0 {
			for _, ch := range "0OIl+/ \u00e9\u4e2d" {
				if _, err := c.Dec(s[:len(s)/2] + string(ch) + s[len(s)/2:]); err == nil {
					x.Fail("%s: base58 decode accepts character %q", c.Name, ch)
				}
			}
		}
	}})
	mc.Register(mc.Scenario{Prop: "A04", Name: "bech32-codec", ShardK: 3, Fn: func(x *mc.X) {
		i := x.Choose("codec", len(b32Codecs))
		c := &b32Codecs[i]
		x.Note("%s", c.Name)
		hrp := mc.Pick(x, "hrp", "bc", "tb", "ltc", "tltc", "cosmos", "eva", "a")
		n := 20
		if c.Versioned {
			n = mc.Pick(x, "len", 20, 32)
		}
		base := x.Choose("base", 4)
		pos := x.Choose("pos", n)
		v := pickVal(x)
		b := basePayload(base, n)
		b[pos] = v
		w := refB32(c, hrp, 0, b)
		s := c.Enc(hrp, append([]byte{}, b...))
		x.Step("Bech32Encode", c.Name, s)
		x.Check(s == w, "%s: bech32(%s,%x) = %q, want %q", c.Name, hrp, b, s, w)
		d, err := c.Dec(w)
		x.Step("Bech32Decode", c.Name, d, err)
		x.Check(err == nil && bytes.Equal(d, b), "%s: bech32 decode of %q = %x, %v, want %x", c.Name, w, d, err, b)
	}})
	mc.Register(mc.Scenario{Prop: "A04", Name: "bech32-codec-edits", ShardK: 3, Fn: func(x *mc.X) {
		i := x.Choose("codec", len(b32Codecs))
		c := &b32Codecs[i]
		x.Note("%s", c.Name)
		n := 20
		if c.Versioned {
			n = mc.Pick(x, "len", 20, 32)
		}
		base := x.Choose("base", 4)
		b := basePayload(base, n)
		s := refB32(c, "bc", 0, b)
		pos := x.Choose("pos", len(s))
		if pos == 0 {
			for ver := byte(1); ver < 32 && c.Versioned; ver++ {
				e := refB32(c, "bc", ver, b)
				if d, err := c.Dec(e); err == nil {
					x.Fail("%s: witness version %d address %q decodes as %x", c.Name, ver, e, d)
				}
			}
		}
		bad := 0
		for _, e := range edits(s, pos, ref.B32) {
			x.Eval(1)
			d, err := c.Dec(e)
			if e == s {
				continue
			}
			hrp, vals, werr := ref.Bech32RawDec(e, 1)
			_ = hrp
			if werr == nil && c.Versioned && (len(vals) == 0 || vals[0] != 0) {
				werr = ref.ErrBad
			}
			if werr == nil {
				continue // another well-formed text: cannot happen for edits of <= 2 symbols of one length
			}
			bad++
			if err == nil {
				x.Fail("%s accepts the damaged address %q (from %q) as %x", c.Name, e, s, d)
			}
		}
		x.Step("bech32 edits", c.Name, n, base, pos, bad)
	}})
	mc.Register(mc.Scenario{Prop: "A04", Name: "bytom-bech32", ShardK: 3, Fn: func(x *mc.X) {
		hrp := mc.Pick(x, "hrp", "bm", "tm", "sm")
		n := mc.Pick(x, "len", 20, 32)
		base := x.Choose("base", 4)
		pos := x.Choose("pos", n)
		v := pickVal(x)
		b := basePayload(base, n)
		b[pos] = v
		d5 := ref.Cat([]byte{0}, ref.To5(b))
		w := ref.Bech32Raw(hrp, d5, 1)
		s, err := bytomTransaction.Bech32Encode(hrp, append([]byte{}, d5...))
		x.Step("Bech32Encode", s, err)
		x.Check(err == nil && s == w, "bytom bech32 = %q, %v, want %q", s, err, w)
		h, d, err := bytomTransaction.Bech32Decode(w)
		x.Step("Bech32Decode", h, d, err)
		x.Check(err == nil && h == hrp && bytes.Equal(d, d5), "bytom bech32 decode of %q = %q %x %v", w, h, d, err)
		if v == 0 && pos%5 == 0 {
			for p := 0; p < len(w); p++ {
				for _, e := range edits(w, p, ref.B32) {
					x.Eval(1)
					if _, _, werr := ref.Bech32RawDec(e, 1); werr == nil {
						continue
					}
					if _, _, err := bytomTransaction.Bech32Decode(e); err == nil {
						x.Fail("bytom accepts the damaged address %q", e)
					}
				}
			}
		}
	}})

	// ------------------------------------------------------------ A03 on the driver decoders
	mc.Register(mc.Scenario{Prop: "A03", Name: "driver-decoders", ShardK: 2, Fn: func(x *mc.X) {
		decs := allDecoders()
		i := x.Choose("decoder", len(decs))
		x.Note("%s", decs[i].name)
		d := decs[i]
		stem := mc.Pick(x, "stem", "", "bc1", "bc1q", "1", "11111", "r", "A", "bm1", "owpub", "owprv", "owchain", "tb1", "BC1", "0x")
		eachShort(x.Deep, func(s string) {
			x.Eval(1)
			d.f(stem + s)
		})
		x.Step("short", d.name, stem)
	}})
	mc.Register(mc.Scenario{Prop: "A03", Name: "driver-decoders-truncation", ShardK: 2, Fn: func(x *mc.X) {
		decs := allDecoders()
		i := x.Choose("decoder", len(decs))
		x.Note("%s", decs[i].name)
		d := decs[i]
		seedText := d.samples[x.Choose("sample", len(d.samples))]
		x.Note("%s", seedText)
		for i := 0; i <= len(seedText); i++ {
			for _, s := range []string{seedText[:i], seedText[i:], seedText + seedText[:i], seedText[:i] + "\xc3\xa9" + seedText[i:], seedText[:i] + "\u4e2d", seedText[:i] + "1" + seedText[i:], seedText[:i] + "q"} {
				x.Eval(1)
				d.f(s)
			}
		}
		d.f(strings.Repeat(seedText, 12))
		x.Step("trunc", d.name, seedText)
	}})
	// every character up to U+0200, the ends of the longer encodings, and every byte that is no character
	mc.Register(mc.Scenario{Prop: "A03", Name: "driver-decoders-characters", ShardK: 2, Fn: func(x *mc.X) {
		decs := allDecoders()
		d := decs[x.Choose("decoder", len(decs))]
		x.Note("%s", d.name)
		t := d.samples[x.Choose("sample", len(d.samples))]
		for _, c := range characters() {
			for _, i := range []int{0, len(t) / 2, len(t) - 1} {
				x.Eval(1)
				d.f(t[:i] + c + t[i+1:])
			}
			x.Eval(2)
			d.f(c)
			d.f(t + c)
		}
		x.Step("characters", d.name, t)
	}})
	mc.Register(mc.Scenario{Prop: "A03", Name: "well-checksummed-any-length", ShardK: 2, Fn: func(x *mc.X) {
		// correct checksum over data of every length: reaches the code behind the checksum test
		n := x.Choose("len", 100)
		base := x.Choose("base", 4)
		ver := mc.Pick(x, "prefix", "", "00", "05", "054d", "07a8e354", "07a8c4df", "0861249612ae5c", "40e7e9aa", "41")
		b := ref.Cat(ref.MustHex(ver), basePayload(base, n))
		decs := allDecoders()
		for _, d := range decs {
			for _, chk := range []string{"doubleSHA256", "doubleBlake256", "blake2b_and_keccak256_first_twenty"} {
				for _, al := range []string{ref.B58, ref.B58XRP} {
					x.Eval(1)
					d.f(ref.B58Enc(ref.Cat(b, ref.Checksum4(chk, b)), al))
				}
			}
			if n < 60 {
				d.f(ref.Bech32Raw("bc", ref.To5(b), 1))
				d.f(ref.Bech32Raw("bm", ref.Cat([]byte{0}, ref.To5(b)), 1))
			}
			d.f(ref.B58Enc(b, ref.B58))
		}
		x.Step("lengths", n, base, ver)
	}})
}

func refB32(c *b32Codec, hrp string, ver byte, b []byte) string {
	d := ref.To5(b)
	if c.Versioned {
		d = ref.Cat([]byte{ver}, d)
	}
	return ref.Bech32Raw(hrp, d, 1)
}

// all one-character edits at a position
func edits(s string, pos int, alpha string) []string {
	var out []string
	chars := alpha + "0OIlb1o:i _\x00\x80Aa"
	for i := 0; i < len(chars); i++ {
		out = append(out, s[:pos]+chars[i:i+1]+s[pos+1:], s[:pos]+chars[i:i+1]+s[pos:])
		if pos == len(s)-1 {
			out = append(out, s+chars[i:i+1])
		}
	}
	out = append(out, s[:pos]+s[pos+1:])
	if pos+1 < len(s) {
		out = append(out, s[:pos]+s[pos+1:pos+2]+s[pos:pos+1]+s[pos+2:])
	}
	return out
}

type decoder struct {
	name    string
	samples []string
	f       func(string)
}

var decCache []decoder

func allDecoders() []decoder {
	if decCache == nil {
		decCache = buildDecoders()
	}
	return decCache
}

func buildDecoders() []decoder {
	var out []decoder
	for i := range checkCodecs {
		c := &checkCodecs[i]
		for _, v := range c.Ver[:1] {
			v := v
			out = append(out, decoder{c.Name, []string{c.ref(v, basePayload(3, 20)), c.ref(v, basePayload(0, 20))}, func(s string) { c.Dec(s, v) }})
		}
	}
	for i := range rawCodecs {
		c := &rawCodecs[i]
		out = append(out, decoder{c.Name + " raw", []string{ref.B58Enc(basePayload(2, 30), ref.B58)}, func(s string) { c.Dec(s) }})
	}
	for i := range b32Codecs {
		c := &b32Codecs[i]
		out = append(out, decoder{c.Name + " bech32", []string{refB32(c, "bc", 0, basePayload(3, 20)), refB32(c, "bc", 0, basePayload(3, 32)), refB32(c, "bc", 1, basePayload(3, 31))}, func(s string) { c.Dec(s) }})
	}
	out = append(out, decoder{"bytom bech32", []string{ref.Bech32Raw("bm", ref.Cat([]byte{0}, ref.To5(basePayload(3, 20))), 1)}, func(s string) { bytomTransaction.Bech32Decode(s) }})
	k, err := owkeychain.InitRootKeyFromSeed(basePayload(3, 32), 0xecc00000)
	if err != nil {
		panic(err)
	}
	e, err := owkeychain.InitRootKeyFromSeed(basePayload(3, 32), 0xecc00002)
	if err != nil {
		panic(err)
	}
	share, _ := owkeychain.GetMultiSigShareData(k.OWEncode())
	out = append(out, decoder{"OWDecode", []string{k.OWEncode(), k.GetPublicKey().OWEncode(), e.OWEncode(), e.GetPublicKey().OWEncode()}, func(s string) { owkeychain.OWDecode(s) }})
	out = append(out, decoder{"ChainDecode", []string{share}, func(s string) { owkeychain.ChainDecode(s) }})
	out = append(out, decoder{"GetMultiSigShareData", []string{k.GetPublicKey().OWEncode(), k.OWEncode()}, func(s string) { owkeychain.GetMultiSigShareData(s) }})
	return out
}

func characters() (o []string) {
	for r := rune(0); r < 0x200; r++ {
		o = append(o, string(r))
	}
	for _, r := range []rune{0x3ff, 0x400, 0x7ff, 0x800, 0xfff, 0x1000, 0x7fff, 0x8000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1ffff, 0x10ffff} {
		o = append(o, string(r))
	}
	for b := 0x80; b < 0x100; b++ {
		o = append(o, string([]byte{byte(b)}))
	}
	return
}
