//go:build go1.21

package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"strings"

	kc "github.com/blocktree/go-owcdrivers/owkeychain"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

func main() { mc.Main() }

// ---------------------------------------------------------------- reference keychain

const (
	cK1, cR1, cSM2, cED, cX, cC255, cBN, cBA, cPA = 0xecc00000, 0xecc00001, 0xecc00002, 0xecc00004, 0xecc00005, 0xecc00006, 0xecc00007, 0xecc00008, 0xecc00009
)

var curves = []uint32{cK1, cED, cR1, cSM2, cX, cC255, cBN, cBA, cPA}
var curveName = map[uint32]string{cK1: "secp256k1", cED: "ed25519", cR1: "secp256r1", cSM2: "sm2", cX: "x25519", cC255: "curve25519-sha256", cBN: "bls-nul", cBA: "bls-aug", cPA: "pasta"}

func isEd(c uint32) bool  { return c == cED || c == cX || c == cC255 }
func isBls(c uint32) bool { return c == cBN || c == cBA }
func wc(c uint32) *ref.Curve {
	switch c {
	case cK1:
		return ref.K1
	case cR1:
		return ref.R1
	case cSM2:
		return ref.SM2
	case cBN, cBA:
		return ref.BLS
	case cPA:
		return ref.PALLAS
	}
	return nil
}

type rkey struct {
	curve uint32
	depth byte
	fp    []byte
	idx   uint32
	cc    []byte
	key   []byte
	priv  bool
}

var errRef = errors.New("ref: impossible")

var pubCache = map[string][]byte{}

func pubOf(c uint32, k []byte) []byte {
	if isEd(c) {
		c = cED
	}
	id := fmt.Sprintf("%x/%x", c, k)
	if p, ok := pubCache[id]; ok {
		return p
	}
	var p []byte
	if isEd(c) {
		p = ref.EdMulG(new(big.Int).SetBytes(ref.Rev(k)))
	} else {
		p = wc(c).Compress(wc(c).MulG(new(big.Int).SetBytes(k)))
	}
	if len(pubCache) > 20000 {
		pubCache = map[string][]byte{}
	}
	pubCache[id] = p
	return p
}

func rroot(seed []byte, c uint32) *rkey {
	h := sha512.Sum512(seed)
	i := h[:]
	switch {
	case isEd(c):
		i[0] &= 248
		i[31] = i[31]&63 | 64
	case isBls(c):
		if i[0] > 0x72 {
			i[0] = 0x72
		}
	case c == cPA:
		i[0] &= 3
	}
	return &rkey{curve: c, fp: make([]byte, 4), cc: i[32:], key: i[:32], priv: true}
}

func (k *rkey) pub() *rkey {
	if !k.priv {
		return k
	}
	q := *k
	q.key = pubOf(k.curve, k.key)
	q.priv = false
	return &q
}

func tweak(c uint32, cc, data []byte, idx uint32) []byte {
	m := hmac.New(sha512.New, cc)
	if len(data) == 32 {
		m.Write([]byte{0})
	}
	m.Write(data)
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], idx)
	m.Write(b[:])
	i := m.Sum(nil)
	if isBls(c) && i[0] > 0x72 {
		i[0] = 0x72
	}
	if c == cPA {
		i[0], i[1], i[2] = 0, 0, 0
	}
	return i
}

func (k *rkey) child(idx uint32) (*rkey, error) {
	if k.depth == 255 || !k.priv {
		return nil, errRef
	}
	data := k.key
	pub := pubOf(k.curve, k.key)
	if idx < 1<<31 {
		data = pub
	}
	i := tweak(k.curve, k.cc, data, idx)
	var key []byte
	if isEd(k.curve) {
		n := new(big.Int).SetBytes(ref.Rev(i[:28]))
		n.Lsh(n, 3)
		n.Add(n, new(big.Int).SetBytes(ref.Rev(k.key)))
		key = ref.Rev(ref.Pad(n, 32))
	} else {
		n := new(big.Int).SetBytes(i[:32])
		n.Add(n, new(big.Int).SetBytes(k.key))
		n.Mod(n, wc(k.curve).N)
		key = ref.Pad(n, 32)
	}
	return &rkey{curve: k.curve, depth: k.depth + 1, fp: ref.Hash160(pub)[:4], idx: idx, cc: i[32:], key: key, priv: true}, nil
}

func (k *rkey) encode() string {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], k.curve)
	d := append([]byte{}, b[:]...)
	d = append(d, k.depth)
	d = append(d, k.fp...)
	binary.BigEndian.PutUint32(b[:], k.idx)
	d = append(d, b[:]...)
	d = append(d, k.cc...)
	if k.priv || isEd(k.curve) {
		d = append(d, 0)
	}
	d = append(d, k.key...)
	pre := "07a81031a2"
	if k.priv {
		pre = "07a8100c28"
	} else if isBls(k.curve) {
		pre = "3e00faea69"
	}
	d = ref.Cat(ref.MustHex(pre), d)
	return ref.B58Enc(ref.Cat(d, ref.Checksum4("doubleSHA256", d)), ref.B58)
}

// ---------------------------------------------------------------- helpers

func seedOf(i int) []byte {
	h := sha512.Sum512([]byte{byte(i), 's'})
	return [][]byte{h[:32], h[:16], h[:64], make([]byte, 32), bytes.Repeat([]byte{0xff}, 64), append(make([]byte, 15), 1), h[:33], h[:17]}[i]
}

func pickCurve(x *mc.X) uint32 {
	c := curves[x.Choose("curve", len(curves))]
	x.Note("%s", curveName[c])
	return c
}

func same(x *mc.X, what string, got *kc.ExtendedKey, err error, want *rkey) {
	x.Check(err == nil, "%s: error %v", what, err)
	x.Check(got != nil, "%s: no key and no error", what)
	g := got.OWEncode()
	x.Step(what, g)
	if w := want.encode(); g != w {
		x.Fail("%s: derived %s, the algorithm yields %s (key %x)", what, g, w, want.key)
	}
	if p := got.GetPublicKeyBytes(); !bytes.Equal(p, want.pub().key) {
		x.Fail("%s: public key %x, want %x", what, p, want.pub().key)
	}
	pk, err := got.GetPrivateKeyBytes()
	if want.priv {
		x.Check(err == nil && bytes.Equal(pk, want.key), "%s: private key %x %v, want %x", what, pk, err, want.key)
	} else {
		x.Check(err != nil, "%s: a public key hands out a private key", what)
	}
}

func impl(k *rkey) *kc.ExtendedKey {
	return kc.NewExtendedKey(append([]byte{}, k.key...), append([]byte{}, k.cc...), append([]byte{}, k.fp...), k.depth, k.idx, k.priv, k.curve)
}

// every way of taking one step from a private node; compares all of them with the model
func step(x *mc.X, k *kc.ExtendedKey, r *rkey, idx uint32) (*kc.ExtendedKey, *rkey) {
	want, werr := r.child(idx)
	what := fmt.Sprintf("child %d", idx)
	got, err := k.GenPrivateChild(idx)
	if werr != nil {
		x.Check(err != nil, "%s beyond the depth limit is derived", what)
		_, err = k.GenPublicChild(idx)
		x.Check(err != nil, "public %s beyond the depth limit is derived from the private key", what)
		_, err = k.GetPublicKey().GenPublicChild(idx)
		x.Check(err != nil, "public %s beyond the depth limit is derived", what)
		return nil, nil
	}
	same(x, "private "+what, got, err, want)
	p, err := k.GenPublicChild(idx)
	same(x, "public (from private parent) "+what, p, err, want.pub())
	pk := k.GetPublicKey()
	same(x, "neuter", pk, nil, r.pub())
	_, err = pk.GenPrivateChild(idx)
	x.Check(err != nil, "a private %s is derived from a public key", what)
	q, err := pk.GenPublicChild(idx)
	if idx >= 1<<31 {
		x.Check(err != nil && q == nil, "hardened %s is derived from a public parent", what)
	} else {
		same(x, "public (from public parent) "+what, q, err, want.pub())
		q, err = pk.DerivedPublicKeyFromSerializes(idx)
		same(x, "DerivedPublicKeyFromSerializes", q, err, want.pub())
	}
	return got, want
}

var indices = []uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<31 + 44, 1<<32 - 1}

func init() {
	mc.Register(mc.Scenario{Prop: "K01", Name: "paths", ShardK: 4, Fn: func(x *mc.X) {
		c := pickCurve(x)
		ns, depth := 2, 2
		if x.Deep {
			ns, depth = 8, 3
		}
		s := seedOf(x.Choose("seed", ns))
		x.Note("%x", s)
		k, err := kc.InitRootKeyFromSeed(append([]byte{}, s...), c)
		r := rroot(s, c)
		same(x, "root", k, err, r)
		n := depth
		for i := 0; i < n; i++ {
			idx := mc.Pick(x, "index", indices...)
			k, r = step(x, k, r, idx)
		}
	}})
	mc.Register(mc.Scenario{Prop: "K01", Name: "seeds", Fn: func(x *mc.X) {
		c := pickCurve(x)
		n := x.Choose("seedlen", 70)
		fill := mc.Pick(x, "fill", 0x5a, 0, 0xff)
		s := bytes.Repeat([]byte{byte(fill)}, n)
		k, err := kc.InitRootKeyFromSeed(append([]byte{}, s...), c)
		if n < 16 || n > 64 {
			x.Step("root", n, err)
			x.Check(err != nil, "a seed of %d bytes is accepted", n)
			return
		}
		same(x, "root", k, err, rroot(s, c))
	}})
	mc.Register(mc.Scenario{Prop: "K01", Name: "parents", ShardK: 4, Fn: func(x *mc.X) {
		// any key can be imported: parents with extreme private keys, chain codes, depths
		c := pickCurve(x)
		kk := mc.Pick(x, "key", "1", "2", "n-1", "n-2", "2^128", "2^200", "mid")
		cc := mc.Pick(x, "chaincode", "00", "ff", "count")
		depth := mc.Pick(x, "depth", 0, 254, 255)
		idx := mc.Pick(x, "index", uint32(0), uint32(7), uint32(1<<31))
		order := ref.EdL
		if !isEd(c) {
			order = wc(c).N
		}
		v := new(big.Int)
		switch kk {
		case "1":
			v.SetInt64(1)
		case "2":
			v.SetInt64(2)
		case "n-1":
			v.Sub(order, big.NewInt(1))
		case "n-2":
			v.Sub(order, big.NewInt(2))
		case "2^128":
			v.Lsh(big.NewInt(1), 128)
		case "2^200":
			v.Lsh(big.NewInt(1), 200)
		case "mid":
			v.Rsh(order, 1)
		}
		if c == cPA && v.BitLen() > 250 {
			v.Rsh(v, 4) // the library's Pallas keys are kept below 2^250
		}
		key := ref.Pad(v, 32)
		if isEd(c) {
			v.Lsh(v, 2)
			if v.BitLen() > 254 {
				v.Rsh(v, 2)
			}
			key = ref.Rev(ref.Pad(v, 32))
		}
		code := map[string][]byte{"00": make([]byte, 32), "ff": bytes.Repeat([]byte{0xff}, 32), "count": ref.Sha256([]byte("cc"))}[cc]
		r := &rkey{curve: c, depth: byte(depth), fp: []byte{1, 2, 3, 4}, idx: 5, cc: code, key: key, priv: true}
		k := impl(r)
		k2, r2 := step(x, k, r, idx)
		if k2 != nil && depth < 254 {
			step(x, k2, r2, 1)
		}
	}})
	mc.Register(mc.Scenario{Prop: "K01", Name: "short-children", ShardK: 2, Fn: func(x *mc.X) {
		// indices at which the child key has leading zero bytes (found by search over the hardened indices)
		e := shortChildren[x.Choose("case", len(shortChildren))]
		x.Note("%s index %d", curveName[e.curve], e.idx)
		next := mc.Pick(x, "next", uint32(0), uint32(1<<31), uint32(5))
		s := seedOf(0)
		k, err := kc.InitRootKeyFromSeed(append([]byte{}, s...), e.curve)
		r := rroot(s, e.curve)
		same(x, "root", k, err, r)
		k, r = step(x, k, r, e.idx)
		if r.key[0] != 0 {
			panic("mc: table entry is not a short child")
		}
		step(x, k, r, next)
	}})
	mc.Register(mc.Scenario{Prop: "K01", Name: "path-api", ShardK: 3, Fn: func(x *mc.X) {
		c := pickCurve(x)
		s := seedOf(x.Choose("seed", 2))
		x.Note("%x", s)
		n := x.Choose("elements", 4)
		p := "m"
		r := rroot(s, c)
		for i := 0; i < n; i++ {
			e := mc.Pick(x, "element", "0", "1'", "2147483647", "44'")
			p += "/" + e
			r, _ = r.child(idxOf(e))
		}
		k, err := kc.DerivedPrivateKeyWithPath(append([]byte{}, s...), p, c)
		same(x, "DerivedPrivateKeyWithPath "+p, k, err, r)
		if n == 0 {
			for i, ct := range []kc.CoinType{kc.Bitcoin, kc.Ethereum} {
				if c != cK1 {
					break
				}
				a, _ := rroot(s, c).child(1<<31 + 44)
				a, _ = a.child(1<<31 + 88)
				a, _ = a.child(uint32(i))
				g, err := kc.GetCoinRootPublicKey(append([]byte{}, s...), ct)
				same(x, "GetCoinRootPublicKey", g, err, a.pub())
				for _, ser := range indices {
					b, _ := a.child(ser)
					pb, err := kc.DerivedPrivateKeyBytes(append([]byte{}, s...), ct, ser)
					x.Step("DerivedPrivateKeyBytes", pb, err)
					x.Check(err == nil && bytes.Equal(pb, b.key), "DerivedPrivateKeyBytes(%d) = %x %v, want %x", ser, pb, err, b.key)
				}
			}
		}
	}})
	mc.Register(mc.Scenario{Prop: "K01", Name: "uncompressed", ShardK: 3, Fn: func(x *mc.X) {
		c := mc.Pick(x, "curve", uint32(cK1), uint32(cR1), uint32(cSM2))
		s := seedOf(x.Choose("seed", 4))
		i := x.Choose("index", 6)
		r, _ := rroot(s, c).child(uint32(i))
		v := new(big.Int).SetBytes(r.key)
		px, py := wc(c).MulG(v)
		want := ref.Cat(ref.Pad(px, 32), ref.Pad(py, 32))
		got := impl(r).GetUncompressedPublicKeyBytes()
		x.Step("uncompressed", got)
		x.Check(bytes.Equal(got, want), "uncompressed public key %x, want %x", got, want)
		got = impl(r.pub()).GetUncompressedPublicKeyBytes()
		x.Check(bytes.Equal(got, want), "uncompressed public key (from public) %x, want %x", got, want)
	}})

	// ------------------------------------------------------------ K02
	mc.Register(mc.Scenario{Prop: "K02", Name: "export-import", ShardK: 4, Fn: func(x *mc.X) {
		c := pickCurve(x)
		s := seedOf(x.Choose("seed", 4))
		path := mc.Pick(x, "path", "", "0", "2147483648", "0/2147483692", "4294967295/2147483647")
		priv := mc.Pick(x, "private", true, false)
		r := rroot(s, c)
		for _, e := range strings.Split(path, "/") {
			if e != "" {
				var n uint64
				fmt.Sscan(e, &n)
				r, _ = r.child(uint32(n))
			}
		}
		if !priv {
			r = r.pub()
		}
		importCheck(x, r)
	}})
	mc.Register(mc.Scenario{Prop: "K02", Name: "export-import-fields", ShardK: 4, Fn: func(x *mc.X) {
		// every field at its extremes
		c := pickCurve(x)
		priv := mc.Pick(x, "private", true, false)
		depth := mc.Pick(x, "depth", 0, 1, 127, 128, 255)
		idx := mc.Pick(x, "index", uint32(0), uint32(1), uint32(1<<31-1), uint32(1<<31), uint32(1<<32-1))
		fp := mc.Pick(x, "fp", "00000000", "ffffffff", "00000001", "80000000")
		cc := mc.Pick(x, "cc", "zero", "ones", "lead", "trail")
		key := mc.Pick(x, "key", "hash", "one")
		code := map[string][]byte{"zero": make([]byte, 32), "ones": bytes.Repeat([]byte{0xff}, 32), "lead": append(make([]byte, 31), 1), "trail": append([]byte{1}, make([]byte, 31)...)}[cc]
		k := rroot(seedOf(0), c).key
		if key == "one" {
			k = append(make([]byte, 31), 8)
			if isEd(c) {
				k = ref.Rev(k)
			}
		}
		r := &rkey{curve: c, depth: byte(depth), fp: ref.MustHex(fp), idx: idx, cc: code, key: k, priv: true}
		if !priv {
			r = r.pub()
		}
		importCheck(x, r)
	}})
	mc.Register(mc.Scenario{Prop: "K02", Name: "damaged-text", ShardK: 4, Fn: func(x *mc.X) {
		c := pickCurve(x)
		priv := mc.Pick(x, "private", true, false)
		ns := 1
		if x.Deep {
			ns = 4
		}
		r := rroot(seedOf(x.Choose("seed", ns)), c)
		r, _ = r.child(1<<31 + 3)
		if !priv {
			r = r.pub()
		}
		s := r.encode()
		pos := x.Choose("pos", len(s))
		n := 0
		try := func(t string) {
			if t == s {
				return
			}
			n++
			x.Eval(1)
			if k, err := kc.OWDecode(t); err == nil {
				x.Fail("the damaged text %q (from %q) is accepted: %s", t, s, k.OWEncode())
			}
		}
		for _, ch := range ref.B58 + "0OIl _\x00\u00e9" {
			try(s[:pos] + string(ch) + s[pos+1:])
			try(s[:pos] + string(ch) + s[pos:])
		}
		try(s[:pos] + s[pos+1:])
		if pos+1 < len(s) {
			try(s[:pos] + s[pos+1:pos+2] + s[pos:pos+1] + s[pos+2:])
		}
		try(s[:pos])
		try(s[pos:])
		try(s + s[:pos])
		x.Step("damaged", c, priv, pos, n)
	}})
	mc.Register(mc.Scenario{Prop: "K02", Name: "wrong-version", ShardK: 3, Fn: func(x *mc.X) {
		// a correct checksum over another version prefix or another length
		c := pickCurve(x)
		priv := mc.Pick(x, "private", true, false)
		r := rroot(seedOf(0), c)
		if !priv {
			r = r.pub()
		}
		d, _ := ref.B58Dec(r.encode(), ref.B58)
		d = d[:len(d)-4]
		enc := func(b []byte) string { return ref.B58Enc(ref.Cat(b, ref.Checksum4("doubleSHA256", b)), ref.B58) }
		kind := mc.Pick(x, "kind", "version-byte", "swap-kind", "xpub", "truncate", "extend")
		switch kind {
		case "version-byte":
			for i := 0; i < 5; i++ {
				for bit := 0; bit < 8; bit++ {
					e := append([]byte{}, d...)
					e[i] ^= 1 << uint(bit)
					refuse(x, enc(e), "version byte changed")
				}
			}
		case "swap-kind":
			// only private keys declared public and vice versa, where lengths or the padding byte tell them apart
			if isBls(c) {
				for _, p := range []string{"07a8100c28", "07a81031a2"} {
					if !priv {
						refuse(x, enc(ref.Cat(ref.MustHex(p), d[5:])), "a 48-byte key under a 33-byte version")
					}
				}
			} else {
				refuse(x, enc(ref.Cat(ref.MustHex("3e00faea69"), d[5:])), "a 33-byte key under the 48-byte version")
			}
		case "xpub":
			for _, p := range []string{"0488b21e", "0488ade4", "00", ""} {
				refuse(x, enc(ref.Cat(ref.MustHex(p), d[5:])), "foreign version")
			}
		case "truncate":
			for i := 0; i < len(d); i++ {
				refuse(x, enc(d[:i]), "truncated")
			}
		case "extend":
			for i := 1; i < 40; i++ {
				if len(d)+i == 98 && !priv {
					continue
				}
				refuse(x, enc(ref.Cat(d, make([]byte, i))), "extended")
			}
		}
		x.Step("version", c, priv, kind)
	}})
	mc.Register(mc.Scenario{Prop: "K02", Name: "share", ShardK: 3, Fn: func(x *mc.X) {
		c := pickCurve(x)
		if isBls(c) {
			return
		}
		r := rroot(seedOf(x.Choose("seed", 4)), c)
		priv := mc.Pick(x, "private", true, false)
		text := r.encode()
		p := r.pub()
		if !priv {
			text = p.encode()
		}
		s, err := kc.GetMultiSigShareData(text)
		x.Step("share", s, err)
		x.Check(err == nil, "share: %v", err)
		m, err := kc.ChainDecode(s)
		x.Check(err == nil, "share %q does not decode: %v", s, err)
		x.Check(bytes.Equal(m.Pubkey, p.key) && bytes.Equal(m.ChainCode, p.cc) && m.CurveType == c, "share decodes to %x %x %x", m.Pubkey, m.ChainCode, m.CurveType)
		x.Check(m.ChianEncode() == s, "share re-encodes differently")
		for i := 0; i < len(s); i++ {
			if m, err := kc.ChainDecode(s[:i]); err == nil {
				x.Fail("truncated share accepted: %v", m)
			}
		}
	}})

	// keys whose text form starts or ends with zero bytes
	mc.Register(mc.Scenario{Prop: "K02", Name: "zero-keys", ShardK: 2, Fn: func(x *mc.X) {
		c := pickCurve(x)
		if isBls(c) {
			return
		}
		where := mc.Pick(x, "zero", "private-first", "private-last", "public-first", "public-last", "chain-first", "chain-last")
		if isEd(c) && strings.HasPrefix(where, "private") || c == cPA {
			return // these private keys have fixed first and last bits
		}
		var r *rkey
		for i := 0; r == nil; i++ {
			h := sha512.Sum512([]byte(fmt.Sprintf("zero key %d", i)))
			k := rroot(h[:32], c)
			b := k.key
			switch strings.Split(where, "-")[0] {
			case "public":
				b = k.pub().key
				if len(b) == 33 {
					b = b[1:]
				}
			case "chain":
				b = k.cc
			}
			if strings.HasSuffix(where, "first") && b[0] == 0 || strings.HasSuffix(where, "last") && b[len(b)-1] == 0 {
				r = k
			}
		}
		importCheck(x, r)
		importCheck(x, r.pub())
		s, err := kc.GetMultiSigShareData(r.pub().encode())
		x.Check(err == nil, "share: %v", err)
		m, err := kc.ChainDecode(s)
		x.Check(err == nil, "share %q does not decode: %v", s, err)
		x.Check(bytes.Equal(m.Pubkey, r.pub().key) && bytes.Equal(m.ChainCode, r.cc) && m.CurveType == c, "share decodes to %x %x %x, want %x %x", m.Pubkey, m.ChainCode, m.CurveType, r.pub().key, r.cc)
	}})

	// ------------------------------------------------------------ K03
	mc.Register(mc.Scenario{Prop: "K03", Name: "private-path-grammar", ShardK: 2, Fn: func(x *mc.X) {
		n := x.Choose("tokens", 5)
		max := 4
		if x.Deep {
			max = 5
		}
		if n == 4 {
			n = max
		}
		p := ""
		toks := tokens
		if n >= 4 && !x.Deep {
			toks = tokensShort
		}
		for i := 0; i < n; i++ {
			p += toks[x.Choose("t", len(toks))]
		}
		checkPath(x, p)
		checkRel(x, p)
	}})
	mc.Register(mc.Scenario{Prop: "K03", Name: "path-elements", ShardK: 2, Fn: func(x *mc.X) {
		pre := mc.Pick(x, "prefix", "m/", "m/0/", "/", "/1/", "M/", "m", "", "//", "m//")
		e := elements[x.Choose("element", len(elements))]
		x.Note("%q", e)
		mark := mc.Pick(x, "mark", "", "'", "''", "h", "H", "\"", " '", "' ")
		post := mc.Pick(x, "post", "", "/", "/1", "/1'", " ", "\n")
		checkPath(x, pre+e+mark+post)
		checkRel(x, pre+e+mark+post)
	}})
	mc.Register(mc.Scenario{Prop: "K03", Name: "depth-limit", ShardK: 1, Fn: func(x *mc.X) {
		c := mc.Pick(x, "curve", uint32(cED), uint32(cX), uint32(cK1))
		n := mc.Pick(x, "elements", 254, 255, 256, 257, 300)
		p := strings.Repeat("/0'", n)
		k, err := kc.DerivedPrivateKeyWithPath(seedOf(0), "m"+p, c)
		x.Step("deep path", n, err)
		if n > 255 {
			x.Check(err != nil, "a path of %d elements is derived: %v", n, k)
		} else {
			r := rroot(seedOf(0), c)
			for i := 0; i < n; i++ {
				r, _ = r.child(1 << 31)
			}
			same(x, "deep path", k, err, r)
		}
		if c == cK1 {
			return
		}
		k, _ = kc.InitRootKeyFromSeed(seedOf(0), c)
		for _, kk := range []*kc.ExtendedKey{k, k.GetPublicKey()} {
			q, err := kk.DerivedPublicKeyFromPath(strings.Repeat("/0", n))
			x.Step("deep public path", n, err)
			x.Check((err != nil) == (n > 255), "a public path of %d elements: %v", n, err)
			if n <= 255 {
				r := rroot(seedOf(0), c)
				for i := 0; i < n; i++ {
					r, _ = r.child(0)
				}
				same(x, "deep public path", q, err, r.pub())
			}
		}
	}})
}

func refuse(x *mc.X, s, why string) {
	x.Eval(1)
	if k, err := kc.OWDecode(s); err == nil {
		x.Fail("%s: %q is accepted as %s", why, s, k.OWEncode())
	}
}

func importCheck(x *mc.X, r *rkey) {
	want := r.encode()
	k := impl(r)
	s := k.OWEncode()
	x.Step("OWEncode", s)
	x.Check(s == want, "exported %q, format prescribes %q", s, want)
	head := "owpub"
	if r.priv {
		head = "owprv"
	}
	x.Check(strings.HasPrefix(s, head), "exported text %q does not start with %s", s, head)
	d, err := kc.OWDecode(s)
	x.Check(err == nil, "exported text %q is refused on import: %v", s, err)
	same(x, "import", d, err, r)
	if r.depth == 255 {
		return
	}
	if r.priv {
		c, _ := r.child(1<<31 + 9)
		g, err := d.GenPrivateChild(1<<31 + 9)
		same(x, "child of imported key", g, err, c)
	} else {
		a, e1 := k.GenPublicChild(9)
		b, e2 := d.GenPublicChild(9)
		x.Check(e1 == nil && e2 == nil && a.OWEncode() == b.OWEncode(), "child of the imported public key differs (%v %v)", e1, e2)
	}
}

func idxOf(e string) uint32 {
	var n uint32
	h := strings.HasSuffix(e, "'")
	fmt.Sscan(strings.TrimSuffix(e, "'"), &n)
	if h {
		n += 1 << 31
	}
	return n
}

// reference grammar: spaces are ignored
func refElems(p string) ([]uint32, bool) {
	var out []uint32
	for _, e := range strings.Split(p, "/") {
		h := strings.HasSuffix(e, "'")
		d := strings.TrimSuffix(e, "'")
		if d == "" {
			return nil, false
		}
		n := new(big.Int)
		for _, c := range []byte(d) {
			if c < '0' || c > '9' {
				return nil, false
			}
			n.Mul(n, big.NewInt(10))
			n.Add(n, big.NewInt(int64(c-'0')))
		}
		if n.BitLen() > 31 {
			return nil, false
		}
		v := uint32(n.Int64())
		if h {
			v |= 1 << 31
		}
		out = append(out, v)
	}
	return out, true
}

func checkPath(x *mc.X, p string) {
	q := strings.ReplaceAll(p, " ", "")
	var want []uint32
	ok := true
	switch {
	case q == "m" || q == "/" || q == "":
	case strings.HasPrefix(q, "m/"):
		want, ok = refElems(q[2:])
	default:
		ok = false
	}
	k, err := kc.DerivedPrivateKeyWithPath(seedOf(0), p, cED)
	x.Step("private path", p, err != nil)
	if !ok {
		x.Outcome("refused")
		if err == nil {
			x.Fail("the malformed path %q derives %s", p, k.OWEncode())
		}
		return
	}
	x.Outcome("derived")
	r := rroot(seedOf(0), cED)
	for _, i := range want {
		r, _ = r.child(i)
	}
	same(x, fmt.Sprintf("path %q", p), k, err, r)
}

func checkRel(x *mc.X, p string) {
	q := strings.ReplaceAll(p, " ", "")
	ok := strings.HasPrefix(q, "/")
	var want []uint32
	if ok {
		want, ok = refElems(q[1:])
	}
	root, _ := kc.InitRootKeyFromSeed(seedOf(0), cED)
	for _, priv := range []bool{true, false} {
		k := root
		if !priv {
			k = root.GetPublicKey()
		}
		good := ok
		r := rroot(seedOf(0), cED)
		for n, i := range want {
			if i >= 1<<31 && (n > 0 || !priv) {
				good = false
			}
		}
		g, err := k.DerivedPublicKeyFromPath(p)
		x.Step("public path", p, priv, err != nil)
		if !good {
			if err == nil {
				x.Fail("the path %q is derived from a key (private %v): %s", p, priv, g.OWEncode())
			}
			continue
		}
		for _, i := range want {
			r, _ = r.child(i)
		}
		same(x, fmt.Sprintf("public path %q", p), g, err, r.pub())
	}
}

var tokens = []string{"m", "/", "0", "1", "'", "-", "+", " ", "2147483647", "2147483648", "4294967296", "h", "."}
var tokensShort = []string{"m", "/", "0", "'", "-", " ", "2147483648"}
var elements = []string{"", "0", "1", "00", "007", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999",
	"-0", "-1", "+0", "+1", "-2147483648", "0x1", "0b1", "1e3", "1_000", "1.0", "0.", ".5", "a", "\u0661", "\uff11", "1\t", "\t1", "\n", "m", "*", "0'0", "'0", "--1"}
