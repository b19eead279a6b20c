//go:build go1.21

package ref

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"sync"

	"github.com/btcsuite/btcd/btcec"
)

// Independent model of the Bitcoin transaction format, signature digests and
// the standard script templates (written from the protocol documentation).

type BIn struct {
	TxID   []byte // wire order
	Vout   uint32
	Script []byte
	Seq    uint32
	Wit    [][]byte
}
type BOut struct {
	Value  uint64
	Script []byte
}
type BTx struct {
	Version uint32
	In      []BIn
	Out     []BOut
	Lock    uint32
}

func LE32(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func LE64(v uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }
func LE16(v uint16) []byte { b := make([]byte, 2); binary.LittleEndian.PutUint16(b, v); return b }
func BE32(v uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, v); return b }
func BE64(v uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, v); return b }
func BE16(v uint16) []byte { b := make([]byte, 2); binary.BigEndian.PutUint16(b, v); return b }

// VarInt is Bitcoin's CompactSize.
func VarInt(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return append([]byte{0xfd}, LE16(uint16(n))...)
	case n <= 0xffffffff:
		return append([]byte{0xfe}, LE32(uint32(n))...)
	}
	return append([]byte{0xff}, LE64(n)...)
}
func VarBytes(b []byte) []byte { return Cat(VarInt(uint64(len(b))), b) }

func (t *BTx) HasWitness() bool {
	for _, i := range t.In {
		if len(i.Wit) > 0 {
			return true
		}
	}
	return false
}

func (t *BTx) Bytes() []byte {
	w := t.HasWitness()
	var b bytes.Buffer
	b.Write(LE32(t.Version))
	if w {
		b.Write([]byte{0, 1})
	}
	b.Write(VarInt(uint64(len(t.In))))
	for _, i := range t.In {
		b.Write(i.TxID)
		b.Write(LE32(i.Vout))
		b.Write(VarBytes(i.Script))
		b.Write(LE32(i.Seq))
	}
	b.Write(VarInt(uint64(len(t.Out))))
	for _, o := range t.Out {
		b.Write(LE64(o.Value))
		b.Write(VarBytes(o.Script))
	}
	if w {
		for _, i := range t.In {
			b.Write(VarInt(uint64(len(i.Wit))))
			for _, x := range i.Wit {
				b.Write(VarBytes(x))
			}
		}
	}
	b.Write(LE32(t.Lock))
	return b.Bytes()
}

type Rd struct {
	B   []byte
	Bad bool
}

func (r *Rd) N(n int) []byte {
	if r.Bad || n < 0 || n > len(r.B) {
		r.Bad = true
		return make([]byte, max(0, min(n, 64)))
	}
	v := r.B[:n:n]
	r.B = r.B[n:]
	return v
}
func (r *Rd) U8() byte    { return r.N(1)[0] }
func (r *Rd) U32() uint32 { return binary.LittleEndian.Uint32(r.N(4)) }
func (r *Rd) U64() uint64 { return binary.LittleEndian.Uint64(r.N(8)) }
func (r *Rd) Var() uint64 {
	switch c := r.U8(); c {
	case 0xfd:
		v := uint64(binary.LittleEndian.Uint16(r.N(2)))
		if v < 0xfd {
			r.Bad = true
		}
		return v
	case 0xfe:
		v := uint64(r.U32())
		if v <= 0xffff {
			r.Bad = true
		}
		return v
	case 0xff:
		v := r.U64()
		if v <= 0xffffffff {
			r.Bad = true
		}
		return v
	default:
		return uint64(c)
	}
}
func (r *Rd) VarB() []byte {
	n := r.Var()
	if n > uint64(len(r.B)) {
		r.Bad = true
		return nil
	}
	return r.N(int(n))
}

// ParseBTx accepts only the canonical serialization.
func ParseBTx(b []byte) (*BTx, error) {
	r := &Rd{B: b}
	t := &BTx{Version: r.U32()}
	wit := false
	if len(r.B) >= 2 && r.B[0] == 0 && r.B[1] == 1 {
		wit = true
		r.N(2)
	}
	n := r.Var()
	for i := uint64(0); i < n && !r.Bad; i++ {
		t.In = append(t.In, BIn{TxID: r.N(32), Vout: r.U32(), Script: r.VarB(), Seq: r.U32()})
	}
	m := r.Var()
	for i := uint64(0); i < m && !r.Bad; i++ {
		t.Out = append(t.Out, BOut{r.U64(), r.VarB()})
	}
	if wit {
		for i := range t.In {
			k := r.Var()
			for j := uint64(0); j < k && !r.Bad; j++ {
				t.In[i].Wit = append(t.In[i].Wit, r.VarB())
			}
		}
		if !t.HasWitness() {
			return nil, errors.New("superfluous witness marker")
		}
	}
	t.Lock = r.U32()
	if r.Bad || len(r.B) != 0 || n == 0 || m == 0 {
		return nil, errors.New("malformed transaction")
	}
	return t, nil
}

func (t *BTx) Legacy(idx int, code []byte, ht uint32) []byte {
	c := BTx{Version: t.Version, Out: t.Out, Lock: t.Lock}
	for i, in := range t.In {
		s := []byte(nil)
		if i == idx {
			s = code
		}
		c.In = append(c.In, BIn{TxID: in.TxID, Vout: in.Vout, Script: s, Seq: in.Seq})
	}
	return DSha256(Cat(c.Bytes(), LE32(ht)))
}

func (t *BTx) BIP143(idx int, code []byte, value uint64, ht uint32) []byte {
	var po, sq, ou bytes.Buffer
	for _, in := range t.In {
		po.Write(in.TxID)
		po.Write(LE32(in.Vout))
		sq.Write(LE32(in.Seq))
	}
	for _, o := range t.Out {
		ou.Write(LE64(o.Value))
		ou.Write(VarBytes(o.Script))
	}
	in := t.In[idx]
	return DSha256(Cat(LE32(t.Version), DSha256(po.Bytes()), DSha256(sq.Bytes()), in.TxID, LE32(in.Vout), VarBytes(code), LE64(value), LE32(in.Seq), DSha256(ou.Bytes()), LE32(t.Lock), LE32(ht)))
}

// ---- scripts

func P2PKH(h []byte) []byte { return Cat([]byte{0x76, 0xa9, 0x14}, h, []byte{0x88, 0xac}) }
func P2SH(h []byte) []byte  { return Cat([]byte{0xa9, 0x14}, h, []byte{0x87}) }
func WitProg(h []byte) []byte {
	return Cat([]byte{0, byte(len(h))}, h)
}
func MultiScript(m int, pubs [][]byte) []byte {
	b := []byte{byte(0x50 + m)}
	for _, p := range pubs {
		b = append(b, byte(len(p)))
		b = append(b, p...)
	}
	return append(b, byte(0x50+len(pubs)), 0xae)
}

// pushes parses a push-only script with minimal pushes.
func pushes(s []byte) ([][]byte, error) {
	var out [][]byte
	for len(s) > 0 {
		op := int(s[0])
		s = s[1:]
		n := 0
		switch {
		case op == 0:
			out = append(out, nil)
			continue
		case op <= 75:
			n = op
		case op == 76 && len(s) >= 1:
			n = int(s[0])
			s = s[1:]
			if n <= 75 {
				return nil, errors.New("push not minimal")
			}
		case op == 77 && len(s) >= 2:
			n = int(binary.LittleEndian.Uint16(s))
			s = s[2:]
			if n <= 255 {
				return nil, errors.New("push not minimal")
			}
		default:
			return nil, fmt.Errorf("opcode %02x in an unlocking script", op)
		}
		if n > len(s) || n > 520 {
			return nil, errors.New("push beyond the script or over 520 bytes")
		}
		out = append(out, s[:n])
		s = s[n:]
	}
	return out, nil
}

// DER parses a strict DER signature (without the hash type byte), r and s positive, minimal.
func DER(b []byte) (r, s *big.Int, err error) {
	bad := errors.New("signature is not strict DER")
	if len(b) < 8 || len(b) > 72 || b[0] != 0x30 || int(b[1]) != len(b)-2 {
		return nil, nil, bad
	}
	rest := b[2:]
	next := func() *big.Int {
		if len(rest) < 3 || rest[0] != 2 {
			return nil
		}
		n := int(rest[1])
		if n == 0 || n > len(rest)-2 {
			return nil
		}
		v := rest[2 : 2+n]
		rest = rest[2+n:]
		if v[0]&0x80 != 0 || (n > 1 && v[0] == 0 && v[1]&0x80 == 0) {
			return nil
		}
		return new(big.Int).SetBytes(v)
	}
	r = next()
	s = next()
	if r == nil || s == nil || len(rest) != 0 {
		return nil, nil, bad
	}
	return r, s, nil
}

// EncDER is the strict encoding of a 64-byte r||s.
func EncDER(sig []byte) []byte {
	f := func(b []byte) []byte {
		v := new(big.Int).SetBytes(b).Bytes()
		if len(v) == 0 || v[0]&0x80 != 0 {
			v = append([]byte{0}, v...)
		}
		return Cat([]byte{2, byte(len(v))}, v)
	}
	body := Cat(f(sig[:32]), f(sig[32:]))
	return Cat([]byte{0x30, byte(len(body))}, body)
}

var vcache sync.Map

// K1Verify checks an ECDSA signature on secp256k1 (btcec), memoised.
func K1Verify(pub, hash []byte, r, s *big.Int) bool {
	key := string(pub) + string(hash) + string(r.Bytes()) + "|" + string(s.Bytes())
	if v, ok := vcache.Load(key); ok {
		return v.(bool)
	}
	p, err := btcec.ParsePubKey(pub, btcec.S256())
	ok := err == nil && (&btcec.Signature{R: r, S: s}).Verify(hash, p)
	vcache.Store(key, ok)
	return ok
}

type Chain struct {
	ForkID     bool // BIP143 digests for every input, hash type 0x41
	Segwit     bool
	AllowHighS bool
	Suffix     func([]byte) bool // accepted bytes after the standard P2PKH/P2SH template
}

func (c *Chain) checkSig(t *BTx, i int, sig, pub, code []byte, amount uint64, wit bool) error {
	if len(sig) == 0 {
		return errors.New("empty signature")
	}
	ht := sig[len(sig)-1]
	want := byte(1)
	if c.ForkID {
		want = 0x41
	}
	if ht != want {
		return fmt.Errorf("hash type %02x", ht)
	}
	r, s, err := DER(sig[:len(sig)-1])
	if err != nil {
		return err
	}
	half := new(big.Int).Rsh(K1.N, 1)
	if s.Cmp(half) > 0 && !c.AllowHighS {
		return errors.New("high S")
	}
	if !(len(pub) == 33 && (pub[0] == 2 || pub[0] == 3)) && !(!wit && len(pub) == 65 && pub[0] == 4) {
		return errors.New("bad public key encoding")
	}
	var h []byte
	if wit || c.ForkID {
		h = t.BIP143(i, code, amount, uint32(ht))
	} else {
		h = t.Legacy(i, code, uint32(ht))
	}
	if !K1Verify(pub, h, r, s) {
		return errors.New("signature does not verify")
	}
	return nil
}

func ParseMulti(s []byte) (int, [][]byte, bool) {
	if len(s) < 3 || s[len(s)-1] != 0xae {
		return 0, nil, false
	}
	m, n := int(s[0])-0x50, int(s[len(s)-2])-0x50
	var pubs [][]byte
	b := s[1 : len(s)-2]
	for len(b) > 0 {
		l := int(b[0])
		if (l != 33 && l != 65) || l+1 > len(b) {
			return 0, nil, false
		}
		pubs = append(pubs, b[1:1+l])
		b = b[1+l:]
	}
	return m, pubs, m >= 1 && n >= m && n <= 16 && n == len(pubs)
}

func (c *Chain) multi(t *BTx, i int, stack [][]byte, script []byte, amount uint64, wit bool) error {
	m, pubs, ok := ParseMulti(script)
	if !ok {
		return errors.New("redeem script is not a multisignature script")
	}
	if len(stack) != m+1 || len(stack[0]) != 0 {
		return fmt.Errorf("%d stack items for a %d-of-%d script", len(stack), m, len(pubs))
	}
	k := 0
	for _, sig := range stack[1:] {
		for {
			if k >= len(pubs) {
				return errors.New("signatures do not match the keys in order")
			}
			err := c.checkSig(t, i, sig, pubs[k], script, amount, wit)
			k++
			if err == nil {
				break
			}
			if err.Error() != "signature does not verify" {
				return err
			}
		}
	}
	return nil
}

// Eval decides whether input i may spend an output locked by lock.
func (c *Chain) Eval(t *BTx, i int, lock []byte, amount uint64) error {
	in := &t.In[i]
	st, err := pushes(in.Script)
	if err != nil {
		return err
	}
	pkh := func(st [][]byte, h, code []byte, wit bool) error {
		if len(st) != 2 {
			return fmt.Errorf("%d items to unlock a public key hash", len(st))
		}
		if !bytes.Equal(Hash160(st[1]), h) {
			return errors.New("public key does not match the hash")
		}
		return c.checkSig(t, i, st[0], st[1], code, amount, wit)
	}
	noWit := func() error {
		if len(in.Wit) != 0 {
			return errors.New("unexpected witness")
		}
		return nil
	}
	suffix := func(s []byte) bool { return len(s) == 0 || (c.Suffix != nil && c.Suffix(s)) }
	wprog := func(prog []byte) error {
		if len(prog) == 20 {
			return pkh(in.Wit, prog, P2PKH(prog), true)
		}
		if len(prog) == 32 {
			if len(in.Wit) < 1 {
				return errors.New("no witness")
			}
			ws := in.Wit[len(in.Wit)-1]
			if !bytes.Equal(Sha256(ws), prog) {
				return errors.New("witness script does not match the program")
			}
			return c.multi(t, i, in.Wit[:len(in.Wit)-1], ws, amount, true)
		}
		return errors.New("bad witness program")
	}
	switch {
	case len(lock) >= 25 && bytes.Equal(lock[:3], []byte{0x76, 0xa9, 0x14}) && lock[23] == 0x88 && lock[24] == 0xac && suffix(lock[25:]):
		if err := noWit(); err != nil {
			return err
		}
		return pkh(st, lock[3:23], lock, false)
	case c.Segwit && len(lock) == 22 && lock[0] == 0 && lock[1] == 20:
		if len(in.Script) != 0 {
			return errors.New("unlocking script on a native witness input")
		}
		return wprog(lock[2:])
	case len(lock) >= 23 && lock[0] == 0xa9 && lock[1] == 20 && lock[22] == 0x87 && suffix(lock[23:]):
		if len(st) == 0 {
			return errors.New("no redeem script")
		}
		rd := st[len(st)-1]
		if !bytes.Equal(Hash160(rd), lock[2:22]) {
			return errors.New("redeem script does not match the hash")
		}
		if c.Segwit && len(rd) >= 4 && len(rd) <= 42 && rd[0] == 0 && int(rd[1]) == len(rd)-2 {
			if len(st) != 1 {
				return errors.New("extra items with a wrapped witness program")
			}
			return wprog(rd[2:])
		}
		if err := noWit(); err != nil {
			return err
		}
		return c.multi(t, i, st[:len(st)-1], rd, amount, false)
	}
	return errors.New("unknown locking script")
}

// Sign64 is a deterministic secp256k1 signature r||s (low S) with nonce k.
func Sign64(d, k *big.Int, hash []byte) []byte { s, _ := K1.EcdsaSign(d, k, hash); return s }

var kgCache sync.Map

type kg struct{ r, kinv *big.Int }

// FastSign signs with a cached nonce point (low S).
func FastSign(d, k *big.Int, hash []byte) []byte {
	ks := string(k.Bytes())
	v, ok := kgCache.Load(ks)
	if !ok {
		x, _ := btcec.S256().ScalarBaseMult(k.Bytes())
		v = kg{new(big.Int).Mod(x, K1.N), new(big.Int).ModInverse(k, K1.N)}
		kgCache.Store(ks, v)
	}
	g := v.(kg)
	s := new(big.Int).Mul(g.r, d)
	s.Add(s, new(big.Int).SetBytes(hash))
	s.Mul(s, g.kinv)
	s.Mod(s, K1.N)
	if s.Cmp(new(big.Int).Rsh(K1.N, 1)) > 0 {
		s.Sub(K1.N, s)
	}
	return Cat(Pad(g.r, 32), Pad(s, 32))
}

// K1Pub is the compressed public key of d.
func K1Pub(d *big.Int) []byte {
	x, y := btcec.S256().ScalarBaseMult(d.Bytes())
	return K1.Compress(x, y)
}

// ShortR is a nonce whose r has 11 leading zero bytes (half the generator).
var ShortR = new(big.Int).Rsh(new(big.Int).Add(K1.N, big.NewInt(1)), 1)

// ShortSeedsK1: entropy streams "s<n>" for which the library signs sha256("digest") with key sha256("signer")
// so that r or the low form of s is short (found by cmd/btcsearch).
var ShortSeedsK1 = []int{398, 803, 804, 1646, 1722}

// ShortSeedsR1: the same for NIST P-256.
var ShortSeedsR1 = []int{94, 104, 223, 224, 239}
