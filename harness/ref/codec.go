//go:build go1.21

// Package ref holds small, deliberately boring reference implementations, written from the published
// formats and independent of the code under test.
package ref

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"math/big"
	"strings"

	"github.com/blocktree/go-owcrypt"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

const B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
const B58XRP = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
const B32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

var ErrBad = errors.New("bad")

func Cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func Rev(b []byte) []byte {
	out := make([]byte, len(b))
	for i := range b {
		out[len(b)-1-i] = b[i]
	}
	return out
}

func MustHex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic("ref: bad hex " + s)
	}
	return b
}

// ---- hashes (standard library / x/crypto, not go-owcrypt, where available)

func Sha256(b []byte) []byte  { h := sha256.Sum256(b); return h[:] }
func DSha256(b []byte) []byte { return Sha256(Sha256(b)) }
func Sha512(b []byte) []byte  { h := sha512.Sum512(b); return h[:] }
func Sha512Half(b []byte) []byte {
	h := sha512.Sum512(b)
	return h[:32]
}
func Ripemd160(b []byte) []byte { h := ripemd160.New(); h.Write(b); return h.Sum(nil) }
func Hash160(b []byte) []byte   { return Ripemd160(Sha256(b)) }
func Keccak256(b []byte) []byte { h := sha3.NewLegacyKeccak256(); h.Write(b); return h.Sum(nil) }
func Sha3_256(b []byte) []byte  { h := sha3.Sum256(b); return h[:] }
func Blake2b(n int, b []byte) []byte {
	h, err := blake2b.New(n, nil)
	if err != nil {
		panic(err)
	}
	h.Write(b)
	return h.Sum(nil)
}
func Blake256(b []byte) []byte  { return owcrypt.Hash(b, 32, owcrypt.HASH_ALG_BLAKE256) }
func DBlake256(b []byte) []byte { return Blake256(Blake256(b)) }

// ---- base58

func B58Enc(b []byte, alpha string) string {
	n := new(big.Int).SetBytes(b)
	m, r, fe := new(big.Int), new(big.Int), big.NewInt(58)
	var out []byte
	for n.Sign() > 0 {
		n.DivMod(n, fe, r)
		m.Set(n)
		out = append(out, alpha[r.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		out = append(out, alpha[0])
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

func B58Dec(s string, alpha string) ([]byte, error) {
	n := new(big.Int)
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(alpha, s[i])
		if d < 0 {
			return nil, ErrBad
		}
		n.Mul(n, big.NewInt(58))
		n.Add(n, big.NewInt(int64(d)))
	}
	z := 0
	for z < len(s) && s[z] == alpha[0] {
		z++
	}
	return append(make([]byte, z), n.Bytes()...), nil
}

// ---- bech32 family

func pm(v []byte) uint32 {
	gen := []uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := uint32(1)
	for _, x := range v {
		t := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(x)
		for i := 0; i < 5; i++ {
			if t>>uint(i)&1 == 1 {
				c ^= gen[i]
			}
		}
	}
	return c
}

func hrpx(h string) []byte {
	var o []byte
	for i := 0; i < len(h); i++ {
		o = append(o, h[i]>>5)
	}
	o = append(o, 0)
	for i := 0; i < len(h); i++ {
		o = append(o, h[i]&31)
	}
	return o
}

func To5(b []byte) []byte {
	var o []byte
	acc, bits := uint32(0), uint(0)
	for _, c := range b {
		acc = acc<<8 | uint32(c)
		bits += 8
		for bits >= 5 {
			bits -= 5
			o = append(o, byte(acc>>bits&31))
		}
		acc &= 1<<bits - 1
	}
	if bits > 0 {
		o = append(o, byte(acc<<(5-bits)&31))
	}
	return o
}

func From5(b []byte) ([]byte, error) {
	var o []byte
	acc, bits := uint32(0), uint(0)
	for _, c := range b {
		acc = acc<<5 | uint32(c)
		bits += 5
		for bits >= 8 {
			bits -= 8
			o = append(o, byte(acc>>bits))
		}
		acc &= 1<<bits - 1
	}
	if bits >= 5 || acc != 0 {
		return nil, ErrBad
	}
	return o, nil
}

// Bech32Raw encodes 5-bit data; c is 1 for bech32 and 0x2bc830a3 for bech32m.
func Bech32Raw(hrp string, data []byte, c uint32) string {
	v := Cat(hrpx(hrp), data, make([]byte, 6))
	m := pm(v) ^ c
	s := hrp + "1"
	for _, d := range data {
		s += B32[d : d+1]
	}
	for i := 0; i < 6; i++ {
		s += string(B32[m>>(5*(5-uint(i)))&31])
	}
	return s
}

func Bech32RawDec(s string, c uint32) (string, []byte, error) {
	if strings.ToLower(s) != s && strings.ToUpper(s) != s {
		return "", nil, ErrBad
	}
	s = strings.ToLower(s)
	p := strings.LastIndex(s, "1")
	if p < 1 || len(s)-p-1 < 6 {
		return "", nil, ErrBad
	}
	hrp := s[:p]
	var d []byte
	for i := p + 1; i < len(s); i++ {
		k := strings.IndexByte(B32, s[i])
		if k < 0 {
			return "", nil, ErrBad
		}
		d = append(d, byte(k))
	}
	if pm(append(hrpx(hrp), d...)) != c {
		return "", nil, ErrBad
	}
	return hrp, d[:len(d)-6], nil
}

const Bech32mConst = 0x2bc830a3

// ---- cashaddr

func cpm(v []byte) uint64 {
	c := uint64(1)
	for _, d := range v {
		c0 := byte(c >> 35)
		c = (c&0x07ffffffff)<<5 ^ uint64(d)
		g := []uint64{0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470}
		for i := 0; i < 5; i++ {
			if c0>>uint(i)&1 == 1 {
				c ^= g[i]
			}
		}
	}
	return c ^ 1
}

func CashEnc(prefix string, typ byte, hash []byte) string {
	d := To5(Cat([]byte{typ << 3}, hash))
	var pre []byte
	for i := 0; i < len(prefix); i++ {
		pre = append(pre, prefix[i]&31)
	}
	pre = append(pre, 0)
	m := cpm(Cat(pre, d, make([]byte, 8)))
	s := prefix + ":"
	for _, x := range d {
		s += B32[x : x+1]
	}
	for i := 0; i < 8; i++ {
		s += string(B32[m>>(5*(7-uint(i)))&31])
	}
	return s
}

func CashDec(prefix, s string) (byte, []byte, error) {
	if strings.ToLower(s) != s && strings.ToUpper(s) != s {
		return 0, nil, ErrBad
	}
	s = strings.ToLower(s)
	if !strings.HasPrefix(s, prefix+":") {
		return 0, nil, ErrBad
	}
	body := s[len(prefix)+1:]
	var d []byte
	for i := 0; i < len(body); i++ {
		k := strings.IndexByte(B32, body[i])
		if k < 0 {
			return 0, nil, ErrBad
		}
		d = append(d, byte(k))
	}
	if len(d) < 8 {
		return 0, nil, ErrBad
	}
	var pre []byte
	for i := 0; i < len(prefix); i++ {
		pre = append(pre, prefix[i]&31)
	}
	pre = append(pre, 0)
	if cpm(append(pre, d...)) != 0 {
		return 0, nil, ErrBad
	}
	b, err := From5(d[:len(d)-8])
	if err != nil || len(b) != 21 || b[0]&0x87 != 0 {
		return 0, nil, ErrBad
	}
	return b[0] >> 3, b[1:], nil
}

// ---- address profiles

type Profile struct {
	Name     string
	Kind     string // base58 bech32 bech32m cash eth icx xmr eos ae
	Alpha    string
	Check    string // checksum algorithm or human-readable part
	Hash     string
	Len      int
	Pre, Suf []byte
}

func Checksum4(kind string, b []byte) []byte {
	switch kind {
	case "doubleSHA256":
		return DSha256(b)[:4]
	case "doubleBlake256":
		return DBlake256(b)[:4]
	case "keccak256":
		return Keccak256(b)[:4]
	case "sha3_256":
		return Sha3_256(b)[:4]
	case "blake2b_and_keccak256_first_twenty":
		return Keccak256(Blake2b(32, b))[:4]
	case "ripemd160":
		return Ripemd160(b)[:4]
	}
	panic("ref: checksum " + kind)
}

func HashKind(kind string, b []byte) []byte {
	switch kind {
	case "h160":
		return Hash160(b)
	case "blake2b160":
		return Blake2b(20, b)
	case "ripemd160":
		return Ripemd160(b)
	case "sha3_256_ripemd160":
		return Ripemd160(Sha3_256(b))
	case "keccak256":
		return Keccak256(b)
	case "sha3_256_last_twenty":
		return Sha3_256(b)[12:]
	case "keccak256_last_twenty":
		return Keccak256(b)[12:]
	case "blake2b_and_keccak256_first_twenty":
		return Keccak256(Blake2b(32, b))[:20]
	}
	return nil
}

var xmrSize = map[int]int{5: 7, 8: 11}

// Encode gives the published text form of a payload.
func (p *Profile) Encode(b []byte) string {
	switch p.Kind {
	case "base58":
		d := Cat(p.Pre, b, p.Suf)
		return B58Enc(Cat(d, Checksum4(p.Check, d)), p.Alpha)
	case "bech32":
		return Bech32Raw(p.Check, Cat(p.Pre, To5(b)), 1)
	case "bech32m":
		return Bech32Raw(p.Check, To5(b), Bech32mConst)
	case "cash":
		return CashEnc(p.Check, b[0], b[1:])
	case "eth":
		return hex.EncodeToString(b[len(b)-20:])
	case "icx":
		return p.Check + hex.EncodeToString(b)
	case "xmr":
		d := Cat(p.Pre, b)
		d = Cat(d, Checksum4("keccak256", d))
		s := ""
		for i := 0; i < len(d); i += 8 {
			e := i + 8
			if e > len(d) {
				e = len(d)
			}
			n := new(big.Int).SetBytes(d[i:e])
			t := ""
			if n.Sign() > 0 {
				t = B58Enc(n.Bytes(), p.Alpha)
			}
			for len(t) < xmrSize[e-i] {
				t = p.Alpha[:1] + t
			}
			s += t
		}
		return s
	case "eos", "ae":
		return string(p.Pre) + B58Enc(Cat(b, Checksum4(p.Check, b)), p.Alpha)
	}
	panic("ref: kind " + p.Kind)
}

// Decode is the reference acceptance test: canonical, right network, right length.
func (p *Profile) Decode(s string) ([]byte, error) {
	switch p.Kind {
	case "base58":
		d, err := B58Dec(s, p.Alpha)
		if err != nil || len(d) != len(p.Pre)+p.Len+len(p.Suf)+4 {
			return nil, ErrBad
		}
		body := d[:len(d)-4]
		if !bytes.Equal(Checksum4(p.Check, body), d[len(d)-4:]) || !bytes.HasPrefix(body, p.Pre) || !bytes.HasSuffix(body, p.Suf) {
			return nil, ErrBad
		}
		return body[len(p.Pre) : len(body)-len(p.Suf)], nil
	case "bech32":
		hrp, d, err := Bech32RawDec(s, 1)
		if err != nil || hrp != p.Check || !bytes.HasPrefix(d, p.Pre) {
			return nil, ErrBad
		}
		b, err := From5(d[len(p.Pre):])
		if err != nil || (len(b) != p.Len && len(b) != 32) {
			return nil, ErrBad
		}
		return b, nil
	case "bech32m":
		hrp, d, err := Bech32RawDec(s, Bech32mConst)
		if err != nil || hrp != p.Check {
			return nil, ErrBad
		}
		b, err := From5(d)
		if err != nil || len(b) != p.Len {
			return nil, ErrBad
		}
		return b, nil
	case "cash":
		t, h, err := CashDec(p.Check, s)
		if err != nil {
			return nil, err
		}
		return append([]byte{t}, h...), nil
	case "eth":
		s = strings.TrimPrefix(s, "0x")
		b, err := hex.DecodeString(s)
		if err != nil || len(b) != 20 {
			return nil, ErrBad
		}
		return b, nil
	case "icx":
		if !strings.HasPrefix(s, p.Check) {
			return nil, ErrBad
		}
		b, err := hex.DecodeString(s[len(p.Check):])
		if err != nil || len(b) != 20 {
			return nil, ErrBad
		}
		return b, nil
	case "xmr":
		want := 95
		if p.Len == 72 {
			want = 106
		}
		if len(s) != want {
			return nil, ErrBad
		}
		var d []byte
		for i := 0; i < len(s); i += 11 {
			e, n := i+11, 8
			if e > len(s) {
				e, n = len(s), 5
			}
			v := new(big.Int)
			for _, c := range []byte(s[i:e]) {
				k := strings.IndexByte(p.Alpha, c)
				if k < 0 {
					return nil, ErrBad
				}
				v.Mul(v, big.NewInt(58)).Add(v, big.NewInt(int64(k)))
			}
			if v.BitLen() > 8*n {
				return nil, ErrBad
			}
			d = append(d, v.FillBytes(make([]byte, n))...)
		}
		body := d[:len(d)-4]
		if !bytes.Equal(Checksum4("keccak256", body), d[len(d)-4:]) || !bytes.HasPrefix(body, p.Pre) {
			return nil, ErrBad
		}
		return body[len(p.Pre):], nil
	case "eos", "ae":
		body := ""
		ok := false
		pres := []string{string(p.Pre)}
		if p.Kind == "eos" {
			pres = []string{"PUB_R1_", "PUB_K1_", "EOS"}
		}
		for _, x := range pres {
			if strings.HasPrefix(s, x) {
				body, ok = s[len(x):], true
				break
			}
		}
		if !ok {
			return nil, ErrBad
		}
		d, err := B58Dec(body, p.Alpha)
		if err != nil || len(d) != p.Len+4 || !bytes.Equal(Checksum4(p.Check, d[:p.Len]), d[p.Len:]) {
			return nil, ErrBad
		}
		return d[:p.Len], nil
	}
	panic("ref: kind " + p.Kind)
}

// HasChecksum tells whether a one-character edit must be detected.
func (p *Profile) HasChecksum() bool { return p.Kind != "eth" && p.Kind != "icx" }
