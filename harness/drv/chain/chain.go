//go:build go1.21

// Package chain describes every non-Bitcoin-family driver in one shape: a
// generator of valid requests with the reference answer to each step of the
// create - sign - combine protocol, a generator of requests that have to be
// refused, and the text entry points that take data from outside.
package chain

import (
	"crypto/ed25519"
	"crypto/elliptic"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"strings"
	"sync"

	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

// Src is where a generator takes its decisions from.
type Src interface {
	Choose(label string, n int) int
	Dev(label string, n int) int
	Note(format string, a ...interface{})
}

// Fixed answers every decision with its default.
type Fixed struct{}

func (Fixed) Choose(string, int) int            { return 0 }
func (Fixed) Dev(string, int) int               { return 0 }
func (Fixed) Note(string, ...interface{})       {}
func Pick[T any](s Src, label string, o ...T) T { return noted(s, o, s.Choose(label, len(o))) }
func Dev[T any](s Src, label string, o ...T) T  { return noted(s, o, s.Dev(label, len(o))) }
func noted[T any](s Src, o []T, c int) T {
	t := fmt.Sprintf("%v", o[c])
	if b, ok := interface{}(o[c]).([]byte); ok {
		t = "0x" + hex.EncodeToString(b)
	}
	if len(t) > 60 {
		t = t[:60]
	}
	if len(o) > 1 {
		s.Note("%s", t)
	}
	return o[c]
}

// SP is one signature with the key it is said to be from.
type SP struct{ Sig, Pub []byte }

// Case is one valid request together with the reference model's view of it.
type Case struct {
	Create  func() (string, []string, error)
	Check   func(empty string, digests []string) string // "" when the reference agrees
	Owners  []*Key                                      // who signs digest i
	Combine func(empty string, sp []SP) (bool, string)
	Want    func(empty string, sp []SP) string // the completed transaction
	Verify  func(signed string) bool           // optional
	Names   bool                               // the transaction text names the owner of every input
	OnlyTx  bool                               // a digest per distinct owner rather than per input
}

type Drv struct {
	Name  string
	Acct  bool
	Curve int
	Gen   func(s Src) *Case
	Sign  func(digest string, priv []byte) ([]byte, error)
	// Free tells that position i of the decoded bytes of part p of an unsigned transaction is data the chain's
	// digest does not cover (and the driver cannot check).
	Free     func(empty string, p, i int) bool
	FreeSig  func(i int) bool              // signature bytes nobody looks at
	FreeDone func(done string, i int) bool // the same for the completed transaction
	// SigOK overrides the reference check of a signature (drivers whose signatures are not r|s).
	SigOK func(k *Key, digest, sig []byte) bool
	// Craft makes such signatures.
	Craft func(k *Key, digest []byte, shape string) []byte
	// Tampers replaces the byte-level alterations for transactions that are not hex text.
	Tampers func(empty string) []Tamper
	// Bad is a request that has to be refused.
	Bad func(s Src) func() (string, error)
	// Raw are the entry points that take text from outside.
	Raw []Entry
}

type Tamper struct{ Name, Text string }

// Entry: Base are valid arguments, Call the operation; it reports whether the arguments were accepted.
type Entry struct {
	Name string
	Base func() []string
	Call func(a []string) bool
}

var Drvs []*Drv

func reg(d *Drv) { Drvs = append(Drvs, d) }

func List(acct bool) []*Drv {
	var r []*Drv
	only := os.Getenv("VERIF_DRV") // development: one driver
	for _, d := range Drvs {
		if d.Acct == acct && (only == "" || only == d.Name) {
			r = append(r, d)
		}
	}
	return r
}

// ---------------------------------------------------------------- keys

const (
	K1 = iota
	R1
	Ed // RFC 8032 signatures
	Other
	X // the same over the Montgomery form of the key (the sign of the Edwards key travels in the signature)
)

type Key struct {
	Name      string
	Curve     int
	D         *big.Int
	Priv, Pub []byte
	EdPub     []byte // X only
	twist     int    // the transaction names a hash that differs from the key's in byte twist-1
}

// NameOf is what a transaction calls this key's owner.
func NameOf(k *Key, hash func([]byte) []byte) []byte {
	h := hash(k.Pub)
	if k.twist > 0 {
		h = append([]byte{}, h...)
		h[(k.twist-1)%len(h)] ^= 1
	}
	return h
}

// Twisted makes every owner's name differ from the hash of their key in byte At.
type Twisted struct {
	Src
	At int
}

func twistOf(s Src) int {
	switch t := s.(type) {
	case Twisted:
		return t.At + 1
	case quiet:
		return twistOf(t.Src)
	}
	return 0
}

// KeyOfPriv finds the key made before for this private key.
func KeyOfPriv(curve int, priv []byte) *Key {
	keyMu.Lock()
	defer keyMu.Unlock()
	for _, k := range keyCache {
		if k.Curve == curve && string(k.Priv) == string(priv) {
			return k
		}
	}
	return nil
}

func (d *Drv) craft(k *Key, msg []byte, shape string) []byte { return d.CraftSig(k, msg, shape) }

// CraftSig signs outside the driver in the form the driver takes.
func (d *Drv) CraftSig(k *Key, msg []byte, shape string) []byte {
	if d.Craft != nil {
		return d.Craft(k, msg, shape)
	}
	return craft(k, msg, shape)
}

var keyMu sync.Mutex
var keyCache = map[string]*Key{}

// KeyN is the n-th ordinary key of a curve.
func KeyN(curve, n int) *Key { return KeyOf(curve, fmt.Sprintf("key%d", n)) }

func KeyOf(curve int, name string) *Key {
	keyMu.Lock()
	defer keyMu.Unlock()
	id := fmt.Sprintf("%d/%s", curve, name)
	if k := keyCache[id]; k != nil {
		return k
	}
	k := &Key{Name: name, Curve: curve}
	b := ref.Sha256([]byte(name))
	k.D = new(big.Int).SetBytes(b)
	k.Priv = b
	switch curve {
	case K1:
		k.Pub = ref.K1Pub(k.D)
	case R1:
		x, y := elliptic.P256().ScalarBaseMult(b)
		k.Pub = ref.R1.Compress(x, y)
	case Ed:
		// the drivers take the (little-endian) scalar itself as private key
		b[0] &= 248
		b[31] &= 127
		b[31] |= 64
		k.D = new(big.Int).SetBytes(ref.Rev(b))
		k.Pub = ref.EdMulG(k.D)
	case X:
		b[0] &= 248
		b[31] &= 127
		b[31] |= 64
		k.D = new(big.Int).SetBytes(ref.Rev(b))
		k.EdPub = ref.EdMulG(k.D)
		k.Pub = ref.EdToX(k.EdPub)
	}
	keyCache[id] = k
	return k
}

// Special finds the first key of the curve whose public key satisfies f.
func Special(curve int, name string, f func(k *Key) bool) *Key {
	id := fmt.Sprintf("special/%d/%s", curve, name)
	keyMu.Lock()
	k := keyCache[id]
	keyMu.Unlock()
	if k != nil {
		return k
	}
	for i := 0; ; i++ {
		k := KeyOf(curve, fmt.Sprintf("x%d", i))
		if f(k) {
			keyMu.Lock()
			keyCache[id] = k
			keyMu.Unlock()
			return k
		}
	}
}

// RefVerify decides a signature independently of the drivers.
func RefVerify(k *Key, msg, sig []byte) bool {
	if len(sig) != 64 {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	switch k.Curve {
	case K1:
		return ref.K1Verify(k.Pub, msg, r, s)
	case R1:
		x, y := ref.R1.Decompress(k.Pub)
		return ref.R1.EcdsaVerify(x, y, msg, r, s)
	case Ed:
		return ed25519.Verify(ed25519.PublicKey(k.Pub), msg, sig)
	case X:
		p := append([]byte{}, k.EdPub...)
		p[31] = p[31]&0x7f | sig[63]&0x80
		g := append([]byte{}, sig...)
		g[63] &= 0x7f
		return ed25519.Verify(ed25519.PublicKey(p), msg, g)
	}
	return false
}

func VerifySig(d *Drv, k *Key, msg, sig []byte) bool {
	if d.SigOK != nil {
		return d.SigOK(k, msg, sig)
	}
	return RefVerify(k, msg, sig)
}

// Shapes are the kinds of signature values CraftSig can make.
var Shapes = []string{"plain", "short-r", "high-r", "short-s", "high-s"}

var r1Short = struct {
	sync.Once
	k *big.Int
}{}

// craft signs outside the drivers, choosing the nonce so that the value has the wanted shape.
func craft(k *Key, msg []byte, shape string) []byte {
	sign := func(n *big.Int) []byte {
		if k.Curve == K1 {
			return ref.FastSign(k.D, n, msg)
		}
		x, _ := elliptic.P256().ScalarBaseMult(n.Bytes())
		r := new(big.Int).Mod(x, ref.R1.N)
		s := new(big.Int).Mul(r, k.D)
		s.Add(s, new(big.Int).SetBytes(msg))
		s.Mul(s, new(big.Int).ModInverse(n, ref.R1.N))
		s.Mod(s, ref.R1.N)
		return ref.Cat(ref.Pad(r, 32), ref.Pad(s, 32))
	}
	if shape == "high-s" && (k.Curve == K1 || k.Curve == R1) { // the other root
		n := ref.K1.N
		if k.Curve == R1 {
			n = ref.R1.N
		}
		g := craft(k, msg, "short-s")
		return ref.Cat(g[:32], ref.Pad(new(big.Int).Sub(n, new(big.Int).SetBytes(g[32:])), 32))
	}
	if shape == "high-shorter-s" && k.Curve == K1 {
		g := craft(k, msg, "shorter-s")
		return ref.Cat(g[:32], ref.Pad(new(big.Int).Sub(ref.K1.N, new(big.Int).SetBytes(g[32:])), 32))
	}
	if shape == "shorter-s" && k.Curve == K1 {
		for n := int64(1000); ; n++ {
			if s := sign(big.NewInt(n)); s[32] == 0 && s[33] == 0 && s[34] < 0x80 {
				return s
			}
		}
	}
	switch k.Curve {
	case K1, R1:
		if shape == "short-r" && k.Curve == K1 {
			return sign(ref.ShortR)
		}
		for n := int64(1000); ; n++ {
			s := sign(big.NewInt(n))
			switch shape {
			case "plain":
				if s[0] > 0 && s[0] < 0x80 && s[32] > 0 {
					return s
				}
			case "short-r":
				if s[0] == 0 {
					return s
				}
			case "high-r":
				if s[0] >= 0x80 {
					return s
				}
			case "short-s", "shorter-s", "high-shorter-s":
				if s[32] == 0 {
					return s
				}
			}
		}
	case Ed:
		return edSign(k, k.Pub, msg, shape)
	case X:
		s := edSign(k, k.EdPub, msg, shape)
		s[63] |= k.EdPub[31] & 0x80
		return s
	}
	panic("curve")
}

// edSign: Schnorr signature with the given scalar (any nonce is fine for RFC 8032 verification).
func edSign(k *Key, pub, msg []byte, shape string) []byte {
	n := new(big.Int).SetBytes(ref.Sha256(ref.Cat([]byte(shape), msg)))
	n.Mod(n, ref.EdL)
	R := ref.EdMulG(n)
	h := new(big.Int).SetBytes(ref.Rev(ref.Sha512(ref.Cat(R, pub, msg))))
	h.Mod(h, ref.EdL)
	s := new(big.Int).Mul(h, k.D)
	s.Add(s, n)
	s.Mod(s, ref.EdL)
	return ref.Cat(R, ref.Rev(ref.Pad(s, 32)))
}

// ---------------------------------------------------------------- values

var hx = hex.EncodeToString

func unhex(s string) []byte { b, _ := hex.DecodeString(s); return b }

func fill(n int, c byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return b
}

func seqb(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

// IDs are 32-byte identifiers (in the order shown to users).
func IDs(k int) [][]byte {
	return [][]byte{ref.Sha256([]byte(fmt.Sprintf("tx%d", k))), fill(32, 0), fill(32, 0xff), ref.Cat(fill(31, 0), []byte{1}), ref.Cat([]byte{1}, fill(31, 0)), seqb(32), ref.Cat([]byte{0, 1}, fill(30, 7))}
}

// Hashes are 20-byte destinations.
func Hashes(k int) [][]byte {
	return [][]byte{ref.Hash160([]byte(fmt.Sprintf("dest%d", k))), fill(20, 0), fill(20, 0xff), seqb(20), ref.Cat(fill(19, 0), []byte{1}), ref.Cat([]byte{1}, fill(19, 0))}
}

var U16 = []uint16{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x0102, 0x7fff, 0x8000, 0xfffe, 0xffff}
var U32 = []uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x01020304, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
var U64 = []uint64{123456789, 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x3fff, 0x4000, 0xffff, 0x10000, 0x1fffff, 0x200000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7ffffffff, 0x800000000, 0x0102030405060708, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}
var I64 = func() (r []int64) {
	for _, v := range U64 {
		if v < 1<<63 {
			r = append(r, int64(v))
		}
	}
	return
}()

func b58chk(prefix, h []byte) string {
	b := ref.Cat(prefix, h)
	return ref.B58Enc(ref.Cat(b, ref.DSha256(b)[:4]), b58Alpha)
}

const b58Alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// badID: texts that are no 32-byte identifier.
func badID(s Src, label string, good string) string {
	return Pick(s, label, "", good[:62], good+"00", good[:63], "0x"+good, " "+good[1:], good[:63]+"g", "zz"+good[2:], good[:32], strings.Repeat("0", 0)+good+good)
}

// badHex: texts that are no byte string at all.
func badHex(s Src, label, good string) string {
	return Pick(s, label, good+"0", "g"+good, "0x"+good, good+" ", "-1")
}

// damaged: one-character edits and cuts of a checksummed address.
func damaged(good string) []string {
	repl := func(i int) string {
		c := byte('2')
		if good[i] == '2' {
			c = '3'
		}
		return good[:i] + string([]byte{c}) + good[i+1:]
	}
	n := len(good)
	out := []string{"", repl(n - 1), repl(n / 2), repl(n - 6), good[:n-1], good[1:], good + "2", " " + good, good + " ", good[:n/2], good[:1], good[:4]}
	for _, v := range []string{"0", "O", "\x00", "é"} {
		if t := good[:n/2] + v + good[n/2+1:]; t != good {
			out = append(out, t)
		}
	}
	return out
}

// badAddr: damaged texts of good, and well-formed addresses of something else.
func badAddr(s Src, label, good string, foreign ...string) string {
	return Pick(s, label, append(damaged(good), foreign...)...)
}

// foreign58: correct base58check texts with other versions and lengths.
func foreign58(okPrefix ...[]byte) []string {
	h := ref.Hash160([]byte("dest0"))
	var out []string
	ok := map[string]bool{}
	for _, p := range okPrefix {
		ok[string(p)] = true
	}
	for _, p := range [][]byte{{0x00}, {0x05}, {0x6f}, {0xff}, {0x16}, {0x18}, {0x10, 0x1c}, {0x10, 0x41}, {0x09, 0x7f}, {0x40, 0xe7, 0xe9, 0x15}, {0x40, 0xe7, 0xe9, 0xaa}} {
		if !ok[string(p)] {
			out = append(out, b58chk(p, h))
		}
	}
	for _, p := range okPrefix {
		out = append(out, b58chk(p, h[:19]), b58chk(p, ref.Cat(h, []byte{1})), b58chk(p, nil), b58chk(p, ref.Cat(h, h[:12])))
	}
	return out
}

// HexParts lists where the maximal hex runs of even length (at least min characters) of a text lie.
func HexParts(s string, min int) [][2]int {
	var out [][2]int
	is := func(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }
	for i := 0; i < len(s); {
		if !is(s[i]) {
			i++
			continue
		}
		j := i
		for j < len(s) && is(s[j]) {
			j++
		}
		if j-i >= min && (j-i)%2 == 0 {
			out = append(out, [2]int{i, j})
		}
		i = j
	}
	return out
}

// Craft is craft for other packages.
func Craft(k *Key, msg []byte, shape string) []byte { return craft(k, msg, shape) }

func BadID(s Src, label, good string) string  { return badID(s, label, good) }
func BadHex(s Src, label, good string) string { return badHex(s, label, good) }
func BadAddr(s Src, label, good string, foreign ...string) string {
	return badAddr(s, label, good, foreign...)
}
