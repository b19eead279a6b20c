//go:build go1.21

package chain

import (
	"encoding/base32"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	bbc "github.com/blocktree/go-owcdrivers/bigbangTransaction"
	fnt "github.com/blocktree/go-owcdrivers/filenetTransaction"
	moac "github.com/blocktree/go-owcdrivers/moacchainTransaction"
	ont "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	xrp "github.com/blocktree/go-owcdrivers/rippleTransaction"
	vsys "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	wicc "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
	"github.com/blocktree/go-owcdrivers/zzverif/spy"
)

// hexTampers: every byte of the decoded transaction, plus cuts and extensions
func hexTampers(e string) (l []Tamper) {
	for _, p := range HexParts(e, 2) {
		b := unhex(e[p[0]:p[1]])
		put := func(name string, c []byte) {
			l = append(l, Tamper{name, e[:p[0]] + hx(c) + e[p[1]:]})
		}
		for i := range b {
			for _, x := range []byte{1, 0x80, 0xff} {
				c := append([]byte{}, b...)
				c[i] ^= x
				put(fmt.Sprintf("byte %d changed", i), c)
			}
		}
		put("cut by a byte", b[:len(b)-1])
		put("one byte added", ref.Cat(b, []byte{0}))
		put("first byte doubled", ref.Cat(b[:1], b))
	}
	return append(l, Tamper{"empty", ""}, Tamper{"odd", e + "0"}, Tamper{"no hex", "zz" + e}, Tamper{"twice", e + e}, Tamper{"spaced", " " + e})
}

// ---------------------------------------------------------------- Ripple

const xrpAlpha = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"

func xrpAddr(h []byte) string {
	b := ref.Cat([]byte{0}, h)
	return ref.B58Enc(ref.Cat(b, ref.DSha256(b)[:4]), xrpAlpha)
}

func xrpVL(b []byte) []byte {
	n := len(b)
	switch {
	case n <= 192:
		return ref.Cat([]byte{byte(n)}, b)
	case n <= 12480:
		n -= 193
		return ref.Cat([]byte{byte(193 + n>>8), byte(n)}, b)
	}
	n -= 12481
	return ref.Cat([]byte{byte(241 + n>>16), byte(n >> 8), byte(n)}, b)
}

var xrpAmounts = []uint64{20000000, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0xffffffff, 0x100000000, 0x0102030405060708, 100000000000000000, 1<<53 + 1, 1<<62 - 1}

func textOf(s Src, label string, def string) string {
	n := Dev(s, label, -1, 0, 1, 2, 127, 128, 191, 192, 193, 194, 255, 256, 448, 449, 450, 12479, 12480, 12481, 12482, 65535, 70000, -2, -3)
	switch n {
	case -1:
		return def
	case -2:
		return "ss\x00s 中s"
	case -3:
		return "\xff\xfe"
	}
	return strings.Repeat("m", n)
}

func xrpGen(s Src) *Case {
	k := ownerOf(s, K1, 0, ref.Hash160)
	from, to := NameOf(k, ref.Hash160), Dev(s, "dest", append(Hashes(0), ref.Hash160(k.Pub))...)
	if Dev(s, "sender", "own", "zero") == "zero" {
		from = fill(20, 0)
	}
	tag := Dev(s, "tag", int64(-1), 0, 1, 255, 256, 12345, 1<<31-1, 1<<31, 1<<32-1)
	seq, last := Dev(s, "sequence", U32...), Dev(s, "last", append([]uint32{6}, U32...)...)
	amount, fee := Dev(s, "amount", xrpAmounts...), Dev(s, "fee", xrpAmounts...)
	mt, md, mf := "", "", ""
	switch s.Choose("outs", 2) {
	case 1:
		mt, md, mf = textOf(s, "memotype", "withdraw"), textOf(s, "memodata", "identify"), textOf(s, "memoformat", "")
	}
	up := Dev(s, "case", false, true)
	pub := hx(k.Pub)
	if up {
		pub = strings.ToUpper(pub)
	}
	a := ref.Cat(ref.MustHex("1200002280000000"), []byte{0x24}, ref.BE32(seq))
	if tag >= 0 {
		a = ref.Cat(a, []byte{0x2e}, ref.BE32(uint32(tag)))
	}
	a = ref.Cat(a, []byte{0x20, 0x1b}, ref.BE32(last), []byte{0x61}, ref.BE64(amount|1<<62), []byte{0x68}, ref.BE64(fee|1<<62), []byte{0x73, 33}, k.Pub)
	b := ref.Cat([]byte{0x81, 20}, from, []byte{0x83, 20}, to)
	if md != "" {
		b = ref.Cat(b, []byte{0xf9, 0xea})
		if mt != "" {
			b = ref.Cat(b, []byte{0x7c}, xrpVL([]byte(mt)))
		}
		b = ref.Cat(b, []byte{0x7d}, xrpVL([]byte(md)))
		if mf != "" {
			b = ref.Cat(b, []byte{0x7e}, xrpVL([]byte(mf)))
		}
		b = ref.Cat(b, []byte{0xe1, 0xf1})
	}
	return &Case{Owners: []*Key{k}, Names: true,
		Create: func() (string, []string, error) {
			e, h, err := xrp.CreateEmptyRawTransactionAndHash(xrpAddr(from), pub, tag, seq, xrpAddr(to), amount, fee, last, mt, md, mf)
			return e, []string{h}, err
		},
		Check: func(e string, dg []string) string {
			if m := diff("the unsigned transaction", e, hx(a)+"s"+hx(b)); m != "" {
				return m
			}
			return diffAll("digest", dg, []string{hx(ref.Sha512Half(ref.Cat([]byte("STX\x00"), a, b)))})
		},
		Combine: func(e string, sp []SP) (bool, string) {
			if len(sp) != 1 {
				return false, ""
			}
			return xrp.VerifyAndCombinRawTransaction(e, hx(sp[0].Sig), hx(sp[0].Pub))
		},
		Want: func(e string, sp []SP) string {
			d := ref.EncDER(sp[0].Sig)
			return hx(ref.Cat(a, []byte{0x74, byte(len(d))}, d, b))
		}}
}

func xrpBad(s Src) func() (string, error) {
	h := Hashes(0)[0]
	k := KeyN(K1, 0)
	from, to, pub, tag, amount, fee, md := xrpAddr(ref.Hash160(k.Pub)), xrpAddr(h), hx(k.Pub), int64(-1), uint64(5), uint64(10), ""
	al := func(p, b []byte) string {
		c := ref.Cat(p, b)
		return ref.B58Enc(ref.Cat(c, ref.DSha256(c)[:4]), xrpAlpha)
	}
	foreign := []string{b58chk([]byte{0}, h), al([]byte{1}, h), al([]byte{0xff}, h), al([]byte{0}, h[:19]), al([]byte{0}, ref.Cat(h, []byte{1})), al(nil, h), al([]byte{0}, nil), al([]byte{0}, ref.Cat(h, h[:12]))}
	switch Pick(s, "field", "from", "to", "pub", "amount", "fee", "tag", "memo") {
	case "from":
		from = badAddr(s, "value", from, foreign...)
	case "to":
		to = badAddr(s, "value", to, foreign...)
	case "pub":
		pub = Pick(s, "value", "", pub[:64], pub+"00", pub[:65], "g"+pub[1:], "04"+pub[2:], "00"+pub[2:], "0x"+pub, "04"+pub[2:]+pub[2:], pub[2:])
	case "amount":
		amount = Pick(s, "value", uint64(0), 1<<62, 1<<62+1, 1<<63, 1<<64-1)
	case "fee":
		fee = Pick(s, "value", uint64(0), 1<<62, 1<<62+1, 1<<63, 1<<64-1)
	case "tag":
		tag = Pick(s, "value", int64(1<<32), 1<<32+1, 1<<63-1)
	case "memo":
		md = strings.Repeat("m", Pick(s, "value", 918745, 1000000))
	}
	return func() (string, error) {
		e, _, err := xrp.CreateEmptyRawTransactionAndHash(from, pub, tag, 1, to, amount, fee, 9, "", md, "")
		return e, err
	}
}

func xrpTampers(e string) []Tamper {
	l := hexTampers(e)
	i := strings.Index(e, "s")
	r := e[:i] + e[i+1:]
	for _, j := range []int{0, 2, 4, 16, i - 2, i + 2, i + 44, len(r)} {
		l = append(l, Tamper{fmt.Sprintf("placeholder at %d", j), r[:j] + "s" + r[j:]}, Tamper{fmt.Sprintf("second placeholder at %d", j), e[:j] + "s" + e[j:]})
	}
	return append(l, Tamper{"no placeholder", r})
}

// ---------------------------------------------------------------- VSYS

func vsysAddr(b []byte) string {
	return ref.B58Enc(ref.Cat(b, ref.Keccak256(ref.Blake2b(32, b))[:4]), b58Alpha)
}

func stampOK(t0 time.Time, ns int64, slack time.Duration) string {
	t := time.Unix(0, ns)
	if t.Before(t0.Add(-slack)) || t.After(time.Now().Add(slack)) {
		return fmt.Sprintf("time stamp %v, now is %v", t, time.Now())
	}
	return ""
}

func vsysGen(s Src) *Case {
	k := ownerOf(s, X, 0, ref.Sha256)
	pre := Dev(s, "network", []byte{5, 'M'}, []byte{5, 'T'})
	to := ref.Cat(pre, Dev(s, "dest", Hashes(0)...))
	amount, fee := Dev(s, "amount", I64...), Dev(s, "fee", I64...)
	scale := Dev(s, "scale", append([]uint16{100}, U16...)...)
	t0 := time.Now()
	want := func(ts uint64) []byte {
		c := ref.Cat(to, ref.Keccak256(ref.Blake2b(32, to))[:4])
		return ref.Cat([]byte{2}, ref.BE64(ts), ref.BE64(uint64(amount)), ref.BE64(uint64(fee)), ref.BE16(scale), c, []byte{0, 0})
	}
	stamp := func(e string) uint64 {
		b := unhex(e)
		if len(b) < 9 {
			return 0
		}
		return binary.BigEndian.Uint64(b[1:])
	}
	return &Case{Owners: []*Key{k},
		Create: func() (string, []string, error) {
			e, err := vsys.CreateEmptyTransaction(vsys.TxStruct{TxType: vsys.TxTypeTransfer, To: vsysAddr(to), Amount: uint64(amount), Fee: uint64(fee), FeeScale: scale})
			return e, []string{e}, err
		},
		Check: func(e string, dg []string) string {
			if m := diff("the unsigned transaction", e, hx(want(stamp(e)))); m != "" {
				return m
			}
			return stampOK(t0, int64(stamp(e)), time.Second)
		},
		Combine: func(e string, sp []SP) (bool, string) {
			if len(sp) != 1 {
				return false, ""
			}
			p := spy.A(&vsys.SignaturePubkey{Signature: sp[0].Sig, PublicKey: sp[0].Pub})
			if !vsys.VerifyTransaction(e, p) {
				return false, ""
			}
			r, err := vsys.CreateJSONRawForSendTransaction(e, p)
			if err != nil {
				return false, ""
			}
			return true, canon(r.Raw)
		},
		Want: func(e string, sp []SP) string {
			return js(obj{"timestamp": stamp(e), "amount": amount, "fee": fee, "feeScale": scale, "recipient": vsysAddr(to), "senderPublicKey": ref.B58Enc(sp[0].Pub, b58Alpha), "attachment": "", "signature": ref.B58Enc(sp[0].Sig, b58Alpha)})
		}}
}

func vsysBad(s Src) func() (string, error) {
	h := Hashes(0)[0]
	t := vsys.TxStruct{TxType: 2, To: vsysAddr(ref.Cat([]byte{5, 'M'}, h)), Amount: 5, Fee: 6, FeeScale: 100}
	switch Pick(s, "field", "to", "attachment", "type", "amount", "fee") {
	case "to":
		t.To = badAddr(s, "value", t.To, b58chk([]byte{5, 'M'}, h), vsysAddr(ref.Cat([]byte{5, 'M'}, h[:19])), vsysAddr(ref.Cat([]byte{5, 'M'}, h, []byte{1})), vsysAddr(nil), vsysAddr(h))
	case "attachment":
		t.Attachment = Pick(s, "value", "a", "\x00", "hello world")
	case "type":
		t.TxType = Pick(s, "value", byte(0), 1, 3, 4, 5, 255)
	case "amount":
		t.Amount = Pick(s, "value", uint64(1<<63), 1<<64-1)
	case "fee":
		t.Fee = Pick(s, "value", uint64(1<<63), 1<<64-1)
	}
	return func() (string, error) { return vsys.CreateEmptyTransaction(t) }
}

// ---------------------------------------------------------------- MOAC

func rlpStr(b []byte) []byte {
	if len(b) == 1 && b[0] < 0x80 {
		return b
	}
	return ref.Cat([]byte{0x80 + byte(len(b))}, b)
}

func rlpInt(n *big.Int) []byte { return rlpStr(n.Bytes()) }
func rlpList(items ...[]byte) []byte {
	b := ref.Cat(items...)
	if len(b) < 56 {
		return ref.Cat([]byte{0xc0 + byte(len(b))}, b)
	}
	n := big.NewInt(int64(len(b))).Bytes()
	return ref.Cat([]byte{0xf7 + byte(len(n))}, n, b)
}

func bigs(def int64) []*big.Int {
	r := []*big.Int{big.NewInt(def)}
	for _, v := range U64 {
		r = append(r, new(big.Int).SetUint64(v))
	}
	for _, bits := range []uint{64, 71, 72, 128, 247, 248, 255} {
		b := new(big.Int).Lsh(big.NewInt(1), bits)
		r = append(r, b, new(big.Int).Sub(b, big.NewInt(1)))
	}
	return append(r, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)))
}

// recid is the parity of the nonce point of a secp256k1 signature.
func recid(k *Key, msg, sig []byte) byte {
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
	n := ref.K1.N
	w := new(big.Int).ModInverse(s, n)
	if w == nil {
		return 2
	}
	u1 := new(big.Int).Mul(new(big.Int).SetBytes(msg), w)
	u2 := new(big.Int).Mul(r, w)
	// R = (u1 + u2 d) G
	u2.Mul(u2, k.D).Add(u2, u1).Mod(u2, n)
	p := ref.K1Pub(u2)
	return p[0] & 1
}

func moacCraft(k *Key, msg []byte, shape string) []byte {
	s := craft(k, msg, shape)
	return append(s, recid(k, msg, s))
}

func moacGen(s Src) *Case {
	k := ownerOf(s, K1, 0, ref.Hash160)
	to := Dev(s, "dest", Hashes(0)...)
	nonce := Dev(s, "nonce", append([]uint64{1}, U64...)...)
	amount, limit, price := Dev(s, "amount", bigs(40000)...), Dev(s, "limit", bigs(200)...), Dev(s, "price", bigs(6000)...)
	test := Dev(s, "testnet", false, true)
	id := int64(99)
	if test {
		id = 101
	}
	list := func(v, r, q []byte) string {
		return hx(rlpList(rlpInt(new(big.Int).SetUint64(nonce)), rlpStr(nil), rlpInt(price), rlpInt(limit), rlpStr(to), rlpInt(amount), rlpStr(nil), rlpStr(nil), rlpStr(nil), v, r, q))
	}
	want := list(rlpInt(big.NewInt(id)), rlpStr(nil), rlpStr(nil))
	return &Case{Owners: []*Key{k},
		Create: func() (string, []string, error) {
			e, h, err := moac.CreateEmptyRawTransactionAndHash("0x"+hx(to), nonce, spy.A(amount), spy.A(limit), spy.A(price), test)
			return e, []string{h}, err
		},
		Check: func(e string, dg []string) string {
			if m := diff("the unsigned transaction", e, want); m != "" {
				return m
			}
			return diffAll("digest", dg, []string{hx(ref.Keccak256(unhex(want)))})
		},
		Combine: func(e string, sp []SP) (bool, string) {
			if len(sp) != 1 {
				return false, ""
			}
			return moac.VerifyAndCombineRawTransaction(e, hx(sp[0].Sig), hx(sp[0].Pub), test)
		},
		Want: func(e string, sp []SP) string {
			g := sp[0].Sig
			return "0x" + list(rlpInt(big.NewInt(int64(g[64])+35+2*id)), rlpInt(new(big.Int).SetBytes(g[:32])), rlpInt(new(big.Int).SetBytes(g[32:64])))
		}}
}

func moacBad(s Src) func() (string, error) {
	to, amount, limit, price := "0x"+hx(Hashes(0)[0]), big.NewInt(5), big.NewInt(6), big.NewInt(7)
	bad := func() *big.Int {
		return Pick(s, "value", nil, big.NewInt(-1), big.NewInt(-256), new(big.Int).Lsh(big.NewInt(1), 256), new(big.Int).Lsh(big.NewInt(1), 448))
	}
	switch Pick(s, "field", "to", "amount", "limit", "price") {
	case "to":
		to = Pick(s, "value", "", "0", "0x", to[2:], to[:40], to+"00", to[:41], "0x"+to, "0y"+to[2:], to[:41]+"g", " "+to)
	case "amount":
		amount = bad()
	case "limit":
		limit = bad()
	case "price":
		price = bad()
	}
	return func() (string, error) {
		e, _, err := moac.CreateEmptyRawTransactionAndHash(to, 1, amount, limit, price, false)
		return e, err
	}
}

// ---------------------------------------------------------------- Filenet

func fnAddr(h []byte) string { return ref.B58Enc([]byte(hx(h)), b58Alpha) }

func fnGen(s Src) *Case {
	k := ownerOf(s, K1, 0, ref.Hash160)
	from := Dev(s, "from", append([][]byte{ref.Hash160(k.Pub)}, Hashes(9)[1:]...)...)
	type dest struct {
		h []byte
		v uint64
	}
	n := 1 + s.Choose("ins", 2)
	wide := Dev(s, "wide", 0, 3, 4, 20, 127, 128, 255, 256, 300)
	if wide > 0 {
		n = wide
	}
	var outs []dest
	var total uint64
	for i := 0; i < n; i++ {
		q := sub(s, i, wide > 4)
		h := Dev(q, fmt.Sprintf("dest%d", i), append(Hashes(i), ref.Hash160(k.Pub))...)
		v := Dev(q, fmt.Sprintf("amount%d", i), U64[0], 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0xffffffff, 0x100000000, 0x0102030405060708, 1<<60-1, 1<<61)
		if n == 1 {
			v = Dev(q, "big", v, 1<<63-1, 1<<63, 1<<64-1)
		}
		outs = append(outs, dest{h, v})
		total += v
	}
	var vo fnt.Vouts
	for _, o := range outs {
		vo = append(vo, fnt.Vout{Address: fnAddr(o.h), Amount: o.v})
	}
	if s.Choose("outs", 2) == 1 { // given in descending order
		sort.SliceStable(vo, func(i, j int) bool { return vo[i].Address > vo[j].Address })
	}
	order := append([]dest{}, outs...)
	sort.Slice(order, func(i, j int) bool {
		a, b := fnAddr(order[i].h), fnAddr(order[j].h)
		return a < b || a == b && order[i].v < order[j].v
	})
	t0 := time.Now()
	split := func(e string) (uint64, []dest, bool) {
		b := unhex(e)
		if len(b) != 44+28*n {
			return 0, nil, false
		}
		var l []dest
		for i := 44; i < len(b); i += 28 {
			l = append(l, dest{b[i : i+20], binary.LittleEndian.Uint64(b[i+20:])})
		}
		return binary.LittleEndian.Uint64(b[36:]), l, true
	}
	return &Case{Owners: []*Key{k},
		Create: func() (string, []string, error) {
			e, h, err := fnt.CreateEmptyTransactionAndHash(fnt.Vin{Address: fnAddr(from)}, spy.A(vo))
			return e, []string{h}, err
		},
		Check: func(e string, dg []string) string {
			ts, got, ok := split(e)
			if !ok {
				return fmt.Sprintf("the transaction has %d characters: %s", len(e), e)
			}
			// transfers to the same address may come in any order
			sort.SliceStable(got, func(i, j int) bool { return string(got[i].h) == string(got[j].h) && got[i].v < got[j].v })
			body := func(l []dest) []byte {
				b := ref.Cat(from, ref.LE64(uint64(n)), ref.LE64(total), ref.LE64(ts))
				for _, o := range l {
					b = ap(b, o.h, ref.LE64(o.v))
				}
				return b
			}
			if m := diff("the unsigned transaction", hx(ref.Cat(unhex(e)[:44], body(got)[44:])), hx(body(order))); m != "" {
				return m
			}
			if m := stampOK(t0, int64(ts)*1e9, 2*time.Second); m != "" {
				return m
			}
			return diffAll("digest", dg, []string{hx(ref.Sha256(unhex(e)))})
		},
		Combine: func(e string, sp []SP) (bool, string) {
			if len(sp) != 1 {
				return false, ""
			}
			t, ok := fnt.VerifyAndCombineTransaction(e, hx(sp[0].Sig), hx(sp[0].Pub))
			return ok, canon(t)
		},
		Want: func(e string, sp []SP) string {
			ts, l, _ := split(e)
			var d arr
			for _, o := range l {
				d = append(d, obj{"to": fnAddr(o.h), "value": o.v})
			}
			return js(obj{"txid": hx(ref.Sha256(unhex(e))), "from": fnAddr(from), "tocount": n, "value": total, "timestamp": ts, "transferdetails": d, "sign": hx(sp[0].Sig)})
		}}
}

func fnBad(s Src) func() (string, error) {
	h := Hashes(0)[0]
	from := fnAddr(Hashes(1)[0])
	outs := fnt.Vouts{{Address: fnAddr(h), Amount: 5}, {Address: fnAddr(Hashes(2)[0]), Amount: 6}}
	at := s.Choose("position", 2)
	bad := func() string {
		a := fnAddr(h)
		return Pick(s, "value", "", a[1:], a[:len(a)-1], a+"2", " "+a, a+" ", a[:20]+"0"+a[21:], fnAddr(h[:19]), fnAddr(ref.Cat(h, []byte{1})), fnAddr(nil), ref.B58Enc(h, b58Alpha), b58chk([]byte{0}, h), ref.B58Enc([]byte("0x"+hx(h)), b58Alpha), ref.B58Enc([]byte(hx(h)[:39]+"g"), b58Alpha), ref.B58Enc([]byte(hx(h)[:39]), b58Alpha))
	}
	switch Pick(s, "field", "from", "to", "amount", "total", "none") {
	case "from":
		from = bad()
	case "to":
		outs[at].Address = bad()
	case "amount":
		outs[at].Amount = 0
	case "total":
		outs[at].Amount = Pick(s, "value", uint64(1<<64-1), 1<<64-5)
	case "none":
		outs = Pick(s, "value", nil, fnt.Vouts{})
	}
	return func() (string, error) {
		e, _, err := fnt.CreateEmptyTransactionAndHash(fnt.Vin{Address: from}, outs)
		return e, err
	}
}

// ---------------------------------------------------------------- Ontology

func ontAddr(k *Key) []byte { return ref.Hash160(ref.Cat([]byte{33}, k.Pub, []byte{0xac})) }

// neoInt pushes a non-negative number the way the driver's chain does.
func neoInt(n *big.Int) []byte {
	if n.Sign() == 0 {
		return []byte{0}
	}
	if n.Cmp(big.NewInt(16)) < 0 {
		return []byte{0x50 + byte(n.Int64())}
	}
	b := n.Bytes()
	if b[0] >= 0x80 {
		b = ref.Cat([]byte{0}, b)
	}
	return ref.Cat([]byte{byte(len(b))}, ref.Rev(b))
}

func ontGen(s Src) *Case {
	k := ownerOf(s, R1, 0, func(b []byte) []byte { return ref.Hash160(ref.Cat([]byte{33}, b, []byte{0xac})) })
	payer := k
	named := false
	switch Dev(s, "payer", "none", "sender", "other") {
	case "sender":
		named = true
	case "other":
		named, payer = true, KeyOf(R1, "payer")
	}
	from, to := ontAddr(k), Dev(s, "dest", append(Hashes(0), ontAddr(k))...)
	asset := Dev(s, "asset", ont.AssetONT, ont.AssetONG, ont.AssetONGWithdraw)
	price, limit := Dev(s, "price", append([]uint64{500}, U64...)...), Dev(s, "limit", append([]uint64{20000}, U64...)...)
	v2 := s.Choose("outs", 2) == 1
	amounts := bigs(1)
	for _, v := range []int64{14, 15, 16, 17, 32767, 32768, 8388607, 8388608} {
		amounts = append(amounts, big.NewInt(v))
	}
	if !v2 {
		var l []*big.Int
		for _, a := range amounts {
			if a.BitLen() <= 64 {
				l = append(l, a)
			}
		}
		amounts = l
	} else {
		var l []*big.Int
		for _, a := range amounts {
			if a.BitLen() <= 255 {
				l = append(l, a)
			}
		}
		amounts = l
	}
	amount := Dev(s, "amount", amounts...)
	if v2 && asset == ont.AssetONGWithdraw {
		v2 = false
		if amount.BitLen() > 64 {
			amount = big.NewInt(3)
		}
	}
	p := []byte{0x00, 0xc6, 0x6b}
	item := func(b []byte) { p = ref.Cat(p, []byte{0x6a}, b, []byte{0xc8}) }
	item(ref.Cat([]byte{20}, from))
	contract := byte(1)
	method := "transfer"
	if v2 {
		method = "transferV2"
	}
	if asset != ont.AssetONT {
		contract = 2
	}
	if asset == ont.AssetONGWithdraw {
		method = "transferFrom"
		item(ref.Cat([]byte{20}, fill(19, 0), []byte{1}))
	}
	item(ref.Cat([]byte{20}, to))
	item(neoInt(amount))
	p = ref.Cat(p, []byte{0x6c})
	if asset != ont.AssetONGWithdraw {
		p = ref.Cat(p, []byte{0x51, 0xc1})
	}
	p = ref.Cat(p, []byte{byte(len(method))}, []byte(method), []byte{20}, fill(19, 0), []byte{contract}, []byte{0, 0x68, 22}, []byte("Ontology.Native.Invoke"))
	want := func(e string) []byte {
		n := unhex(e)
		if len(n) < 6 {
			n = make([]byte, 6)
		}
		return ref.Cat([]byte{0, 0xd1}, n[2:6], ref.LE64(price), ref.LE64(limit), ontAddr(payer), []byte{byte(len(p))}, p, []byte{0})
	}
	owners := []*Key{payer}
	if payer != k {
		owners = append(owners, k)
	}
	return &Case{Owners: owners, OnlyTx: true,
		Create: func() (string, []string, error) {
			pa := ""
			if named {
				pa = b58chk([]byte{0x17}, ontAddr(payer))
			}
			var e string
			var th *ont.TxHash
			var err error
			if v2 {
				e, th, err = ont.CreateRawTransactionAndHashV2(price, limit, ont.TxStateV2{AssetType: asset, Payer: pa, From: b58chk([]byte{0x17}, from), To: b58chk([]byte{0x17}, to), Amount: spy.A(amount)})
			} else {
				e, th, err = ont.CreateRawTransactionAndHash(price, limit, ont.TxState{AssetType: asset, Payer: pa, From: b58chk([]byte{0x17}, from), To: b58chk([]byte{0x17}, to), Amount: amount.Uint64()})
			}
			if err != nil {
				return "", nil, err
			}
			var dg []string
			for _, a := range th.Addresses {
				dg = append(dg, th.GetTxHashHex()+"@"+a)
			}
			return e, dg, nil
		},
		Check: func(e string, dg []string) string {
			w := want(e)
			if m := diff("the unsigned transaction", e, hx(w)+"00"); m != "" {
				return m
			}
			var wd []string
			for _, o := range owners {
				wd = append(wd, hx(ref.Sha256(ref.DSha256(w)))+"@"+b58chk([]byte{0x17}, ontAddr(o)))
			}
			if m := diffAll("digest", dg, wd); m != "" {
				return m
			}
			t, err := ont.DecodeRawTransaction(unhex(e))
			if err != nil || t.GetVersion() != 0 || t.GetTxType() != 0xd1 || t.GetGasPrice() != price || t.GetGasLimit() != limit || t.GetPayLoad() != hx(p) || t.GetPayer() != b58chk([]byte{0x17}, ontAddr(payer)) || hx(ref.LE32(t.GetNonce())) != e[4:12] {
				return fmt.Sprintf("decoding it gives %+v, error %v", t, err)
			}
			return ""
		},
		Combine: func(e string, sp []SP) (bool, string) {
			var l []ont.SigPub
			for _, x := range sp {
				l = append(l, ont.SigPub{Signature: x.Sig, PublicKey: x.Pub})
			}
			ok, t, err := ont.VerifyAndCombineRawTransaction(e, spy.A(l))
			if !ok || err != nil {
				return false, ""
			}
			d, err := ont.DecodeRawTransaction(unhex(t))
			if err != nil {
				return true, "decoding it gives error " + err.Error() + ": " + t
			}
			if b, err := d.ToBytes(); err != nil || hx(b) != t {
				return true, fmt.Sprintf("decoding and encoding it gives %x, error %v", b, err)
			}
			return true, t
		},
		Want: func(e string, sp []SP) string {
			b := ref.Cat(want(e), []byte{byte(len(sp))})
			for _, x := range sp {
				b = ref.Cat(b, []byte{0x41, 0x40}, x.Sig, []byte{0x23, 0x21}, x.Pub, []byte{0xac})
			}
			return hx(b)
		}}
}

func ontBad(s Src) func() (string, error) {
	h := Hashes(0)[0]
	ad := func(i int) string { return b58chk([]byte{0x17}, Hashes(i)[0]) }
	payer, from, to, asset, amount := ad(3), ad(2), ad(1), 0, big.NewInt(5)
	v2 := s.Choose("version", 2) == 1
	fs := []string{"payer", "from", "to", "asset"}
	if v2 {
		fs = append(fs, "amount")
	}
	switch Pick(s, "field", fs...) {
	case "payer":
		payer = badAddr(s, "value", payer, foreign58([]byte{0x17})...)
		if payer == "" {
			payer = "1"
		}
	case "from":
		from = badAddr(s, "value", from, foreign58([]byte{0x17})...)
	case "to":
		to = badAddr(s, "value", to, foreign58([]byte{0x17})...)
	case "asset":
		asset = Pick(s, "value", 3, -1, 255, 1<<31)
	case "amount":
		amount = Pick(s, "value", nil, big.NewInt(-1), big.NewInt(-2), new(big.Int).Lsh(big.NewInt(1), 256), new(big.Int).Lsh(big.NewInt(1), 1600))
	}
	_ = h
	return func() (string, error) {
		if v2 {
			e, _, err := ont.CreateRawTransactionAndHashV2(1, 1, ont.TxStateV2{AssetType: asset, Payer: payer, From: from, To: to, Amount: amount})
			return e, err
		}
		e, _, err := ont.CreateRawTransactionAndHash(1, 1, ont.TxState{AssetType: asset, Payer: payer, From: from, To: to, Amount: 5})
		return e, err
	}
}

// ---------------------------------------------------------------- WaykiChain

func cvar(n uint64) []byte {
	var b []byte
	for {
		d := byte(n & 0x7f)
		if len(b) > 0 {
			d |= 0x80
		}
		b = append(b, d)
		if n <= 0x7f {
			return ref.Rev(b)
		}
		n = n>>7 - 1
	}
}

var cvarEdges = []int64{100660000, 0, 1, 126, 127, 128, 129, 255, 256, 16383, 16511, 16512, 16513, 65535, 2113663, 2113664, 2113665, 270549119, 270549120, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 34630287488, 34630287487, 0x0102030405060708, 1<<62 - 1, 1 << 62, 1<<63 - 1}

type wiccIn struct {
	from, to, app        string
	amount, fee, height  int64
	typ                  byte
	regH, regI, apH, apI int64
	dest, pub, contract  []byte
}

func wiccGen(s Src) *Case {
	k := ownerOf(s, K1, 0, ref.Hash160)
	net := Dev(s, "network", byte(0x49), 0x87)
	dest := Dev(s, "dest", append(Hashes(0), ref.Hash160(k.Pub))...)
	typ := []byte{3, 2, 4, 11}[s.Choose("ins", 2)+2*s.Choose("outs", 2)]
	h := Dev(s, "height", cvarEdges...)
	reg := func(l string) (string, []byte) {
		a, b := Dev(s, l+"height", append([]int64{25813}, cvarEdges[1:]...)...), Dev(s, l+"index", append([]int64{1}, cvarEdges[1:]...)...)
		x := ref.Cat(cvar(uint64(a)), cvar(uint64(b)))
		return Dev(s, l+"pad", "", " ", "\n") + fmt.Sprintf("%d-%d", a, b) + Dev(s, l+"padEnd", "", " ", "\n"), ref.Cat([]byte{byte(len(x))}, x)
	}
	fee := Dev(s, "fee", cvarEdges...)
	amount := int64(0)
	if typ != 2 {
		amount = Dev(s, "amount", append([]int64{100000000}, cvarEdges[1:]...)...)
	}
	to := b58chk([]byte{net}, dest)
	var from, app string
	body := ref.Cat([]byte{1}, cvar(uint64(h)))
	head := func() []byte { return ref.Cat([]byte{typ}, body) }
	switch typ {
	case 3:
		r, b := reg("from")
		from = r
		body = ref.Cat(body, b, []byte{20}, dest, cvar(uint64(fee)), cvar(uint64(amount)), []byte{0})
	case 2:
		from = hx(k.Pub)
		body = ref.Cat(body, []byte{33}, k.Pub, []byte{0}, cvar(uint64(fee)))
	case 4:
		r, b := reg("from")
		a, c := reg("app")
		from, app = r, a
		code := seqb(Dev(s, "contract", 41, 0, 1, 127, 128, 251, 252, 253, 254, 255, 256, 257, 1000, 65535, 65536))
		to = hx(code)
		body = ref.Cat(body, b, c, cvar(uint64(fee)), cvar(uint64(amount)), ref.VarBytes(code))
	case 11:
		r, b := reg("from")
		from = r
		app = Dev(s, "coin", "WUSD", "WICC", "W", "a-b", strings.Repeat("C", 127), strings.Repeat("C", 128), strings.Repeat("C", 252), strings.Repeat("C", 253), strings.Repeat("C", 256))
		body = ref.Cat(body, b, []byte{4}, []byte("WICC"), cvar(uint64(fee)), []byte{1, 20}, dest, ref.VarBytes([]byte(app)), cvar(uint64(amount)), []byte{0})
	}
	signed := ref.Cat([]byte{1, typ}, body[1:])
	return &Case{Owners: []*Key{k},
		Create: func() (string, []string, error) {
			e, d, err := wicc.CreateEmptyRawTransactionAndHash(from, to, app, amount, fee, h, typ)
			return e, []string{d}, err
		},
		Check: func(e string, dg []string) string {
			if m := diff("the unsigned transaction", e, hx(head())); m != "" {
				return m
			}
			return diffAll("digest", dg, []string{hx(ref.DSha256(signed))})
		},
		Combine: func(e string, sp []SP) (bool, string) {
			if len(sp) != 1 {
				return false, ""
			}
			return wicc.VerifyAndCombineRawTransaction(e, spy.A(wicc.SigPub{PublicKey: sp[0].Pub, Signature: sp[0].Sig}))
		},
		Want: func(e string, sp []SP) string {
			d := ref.EncDER(sp[0].Sig)
			return hx(ref.Cat(head(), []byte{byte(len(d))}, d))
		}}
}

func wiccBad(s Src) func() (string, error) {
	h := Hashes(0)[0]
	typ := Pick(s, "type", byte(3), 2, 4, 11)
	from, to, app := "25813-1", b58chk([]byte{0x49}, h), "WUSD"
	amount, fee, height := int64(5), int64(6), int64(7)
	fs := []string{"from", "fee", "height", "type"}
	switch typ {
	case 3:
		fs = append(fs, "to", "amount")
	case 2:
		from = hx(KeyN(K1, 0).Pub)
	case 4:
		app, to = "20-1", "f017"
		fs = append(fs, "contract", "app", "amount")
	case 11:
		fs = append(fs, "to", "amount", "coin")
	}
	reg := func() string {
		return Pick(s, "value", "", "25813", "25813-", "-1", "25813-1-1", "a-1", "1-b", "0x1-1", "1--1", "-1-1", "25813 -1", "25813- 1", "9223372036854775808-1", "1-9223372036854775808", "1-99999999999999999999999", "٣-1", "1.0-1", "+1-1", to)
	}
	neg := func() int64 { return Pick(s, "value", int64(-1), -128, -1<<63) }
	switch Pick(s, "field", fs...) {
	case "from":
		if typ == 2 {
			from = Pick(s, "value", "", from[:64], from+"00", from[:65], "g"+from[1:], "04"+from[2:], "00"+from[2:], "05"+from[2:], "25813-1")
		} else {
			from = reg()
		}
	case "app":
		app = reg()
	case "to":
		to = badAddr(s, "value", to, foreign58([]byte{0x49}, []byte{0x87})...)
	case "contract":
		to = Pick(s, "value", "f", "0xf0", "zz", "f0 1", "f017g")
	case "coin":
		app = ""
	case "fee":
		fee = neg()
	case "amount":
		amount = neg()
	case "height":
		height = neg()
	case "type":
		typ = Pick(s, "value", byte(0), 1, 5, 10, 12, 255)
	}
	return func() (string, error) {
		e, _, err := wicc.CreateEmptyRawTransactionAndHash(from, to, app, amount, fee, height, typ)
		return e, err
	}
}

// ---------------------------------------------------------------- BigBang

func crc24(b []byte) []byte {
	c := uint32(0)
	for _, v := range b {
		c ^= uint32(v) << 16
		for i := 0; i < 8; i++ {
			c <<= 1
			if c&0x1000000 != 0 {
				c ^= 0x1864cfb
			}
		}
	}
	return ref.BE32(c)[1:]
}

func bbcAddr(pub []byte) string {
	return "1" + base32.NewEncoding("0123456789abcdefghjkmnpqrstvwxyz").EncodeToString(ref.Cat(pub, crc24(pub)))
}

func bbcGen(s Src) *Case {
	k := ownerOf(s, Ed, 0, ref.Sha256)
	lock := Dev(s, "lock", U32...)
	anchor := Dev(s, "anchor", IDs(8)...)
	n := 1 + s.Choose("ins", 2)
	wide := Dev(s, "wide", 0, 3, 4, 127, 128, 251, 252)
	if wide > 0 {
		n = wide
	}
	var ins []bbc.Vin
	var ib []byte
	for i := 0; i < n; i++ {
		q := sub(s, i, wide > 4)
		id, vo := Dev(q, fmt.Sprintf("id%d", i), IDs(i)...), Dev(q, fmt.Sprintf("vout%d", i), byte(0), 1, 127, 128, 255)
		ins = append(ins, bbc.Vin{TxID: hx(id), Vout: vo})
		ib = ap(ib, ref.Rev(id), []byte{vo})
	}
	to := Dev(s, "dest", append(append([][]byte{KeyOf(Ed, "dest").Pub}, IDs(3)...), k.Pub)...)
	var big64 []uint64
	for _, v := range U64 {
		if v != 0 {
			big64 = append(big64, v)
		}
	}
	amount, fee := Dev(s, "amount", big64...), Dev(s, "fee", big64...)
	data := ""
	if s.Choose("outs", 2) == 1 {
		data = Dev(s, "data", "memo", "a", "\x00", "中文", "\xff\xfe", strings.Repeat("d", 127), strings.Repeat("d", 128), strings.Repeat("d", 251), strings.Repeat("d", 252))
	}
	t0 := time.Now()
	want := func(e string) []byte {
		b := unhex(e)
		if len(b) < 8 {
			b = make([]byte, 8)
		}
		return ref.Cat(ref.LE16(1), ref.LE16(0), b[4:8], ref.LE32(lock), ref.Rev(anchor), []byte{byte(n)}, ib, []byte{1}, to, ref.LE64(amount), ref.LE64(fee), []byte{byte(len(data))}, []byte(data))
	}
	return &Case{Owners: []*Key{k},
		Create: func() (string, []string, error) {
			e, h, err := bbc.CreateEmptyTransactionAndHash(lock, hx(anchor), spy.A(ins), bbcAddr(to), amount, fee, data)
			return e, []string{h}, err
		},
		Check: func(e string, dg []string) string {
			if m := diff("the unsigned transaction", e, hx(want(e))); m != "" {
				return m
			}
			if m := stampOK(t0, int64(binary.LittleEndian.Uint32(unhex(e)[4:]))*1e9, 2*time.Second); m != "" {
				return m
			}
			return diffAll("digest", dg, []string{hx(ref.Blake2b(32, unhex(e)))})
		},
		Combine: func(e string, sp []SP) (bool, string) {
			if len(sp) != 1 {
				return false, ""
			}
			return bbc.VerifyAndCombineTransaction(e, hx(sp[0].Sig), spy.A(sp[0].Pub))
		},
		Want: func(e string, sp []SP) string { return hx(ref.Cat(want(e), []byte{0x40}, sp[0].Sig)) }}
}

func bbcBad(s Src) func() (string, error) {
	id := hx(IDs(0)[0])
	pub := KeyOf(Ed, "dest").Pub
	anchor, to, amount, fee, data := hx(IDs(8)[0]), bbcAddr(pub), uint64(5), uint64(6), ""
	ins := []bbc.Vin{{TxID: id, Vout: 1}, {TxID: hx(IDs(1)[0]), Vout: 2}}
	at := s.Choose("position", 2)
	switch Pick(s, "field", "anchor", "id", "to", "amount", "fee", "none", "many", "data") {
	case "anchor":
		anchor = badID(s, "value", anchor)
	case "id":
		ins[at].TxID = badID(s, "value", id)
	case "to":
		raw := func(p string, b []byte) string {
			return p + base32.NewEncoding("0123456789abcdefghjkmnpqrstvwxyz").WithPadding(base32.NoPadding).EncodeToString(b)
		}
		to = badAddr(s, "value", to, "2"+to[1:], "0"+to[1:], raw("1", ref.Cat(pub[:31], crc24(pub[:31]))), raw("1", ref.Cat(pub, []byte{1}, crc24(ref.Cat(pub, []byte{1})))), raw("1", pub), raw("1", nil), strings.ToUpper(to), to[:1]+"\n"+to[1:])
	case "amount":
		amount = 0
	case "fee":
		fee = 0
	case "none":
		ins = Pick(s, "value", nil, []bbc.Vin{})
	case "many":
		n := Pick(s, "value", 253, 255, 256, 257, 300)
		for len(ins) < n {
			ins = append(ins, bbc.Vin{TxID: id, Vout: byte(len(ins))})
		}
	case "data":
		data = strings.Repeat("d", Pick(s, "value", 253, 255, 256, 257, 512, 70000))
	}
	return func() (string, error) {
		e, _, err := bbc.CreateEmptyTransactionAndHash(0, anchor, ins, to, amount, fee, data)
		return e, err
	}
}

func init() {
	add := func(d *Drv, more ...Entry) {
		d.Acct = true
		d.Raw = append([]Entry{combineEntry(d), signEntry(d)}, more...)
		reg(d)
	}
	text := func(f func(string, []byte) (string, error)) func(string, []byte) ([]byte, error) {
		return func(h string, p []byte) ([]byte, error) {
			t, err := f(h, p)
			if err != nil {
				return nil, err
			}
			b, err := hex.DecodeString(t)
			return b, err
		}
	}
	// the completed (or for "empty" the unsigned) transaction of the default case
	done := func(d *Drv) func() []string {
		return func() []string {
			c := d.Gen(Fixed{})
			e, dg, _ := c.Create()
			var sp []SP
			for i, g := range dg {
				sp = append(sp, SP{d.craft(c.Owners[i], digestBytes(g), "plain"), c.Owners[i].Pub})
			}
			return []string{c.Want(e, sp)}
		}
	}
	addr := func(name string, good string, f func(string) bool) Entry {
		return Entry{Name: name, Base: func() []string { return []string{good} }, Call: func(a []string) bool { return f(a[0]) }}
	}
	add(&Drv{Name: "ripple", Curve: K1, Gen: xrpGen, Bad: xrpBad, Tampers: xrpTampers, Sign: text(xrp.SignRawTransaction)},
		addr("address", xrpAddr(Hashes(0)[0]), func(s string) bool { _, err := xrp.GetProgramHashFromAddress(s); return err == nil }))
	add(&Drv{Name: "vsys", Curve: X, Gen: vsysGen, Bad: vsysBad, Tampers: hexTampers, Sign: func(h string, p []byte) ([]byte, error) {
		r, err := vsys.SignTransaction(h, p)
		if err != nil {
			return nil, err
		}
		if k := KeyOfPriv(X, p); k != nil && hx(r.PublicKey) != hx(k.Pub) {
			return nil, fmt.Errorf("the key %x it names is not the signer's", r.PublicKey)
		}
		return r.Signature, nil
	}}, Entry{Name: "decode", Base: func() []string { e, _, _ := vsysGen(Fixed{}).Create(); return []string{e} }, Call: func(a []string) bool { _, _, err := vsys.TxStructDecode(argBytes(a[0])); return err == nil }},
		addr("address", vsysAddr(ref.Cat([]byte{5, 'M'}, Hashes(0)[0])), func(s string) bool { _, err := vsys.DecodeCheck(s); return err == nil }))
	add(&Drv{Name: "moac", Curve: K1, Gen: moacGen, Bad: moacBad, Tampers: hexTampers, Sign: moac.SignRawTransaction, Craft: moacCraft,
		SigOK: func(k *Key, h, g []byte) bool {
			return len(g) == 65 && RefVerify(k, h, g[:64]) && recid(k, h, g) == g[64]
		}})
	add(&Drv{Name: "filenet", Curve: K1, Gen: fnGen, Bad: fnBad, Tampers: hexTampers, Sign: text(fnt.SignTransaction)})
	o := &Drv{Name: "ontology", Curve: R1, Gen: ontGen, Bad: ontBad, Tampers: hexTampers, Sign: func(h string, p []byte) ([]byte, error) {
		r, err := ont.SignRawTransactionHash(h, p)
		if err != nil {
			return nil, err
		}
		if k := KeyOfPriv(R1, p); k != nil && hx(r.PublicKey) != hx(k.Pub) {
			return nil, fmt.Errorf("the key %x it names is not the signer's", r.PublicKey)
		}
		return r.Signature, nil
	}}
	add(o, Entry{Name: "decode", Base: done(o), Call: func(a []string) bool {
		t, err := ont.DecodeRawTransaction(argBytes(a[0]))
		if err == nil {
			t.ToBytes()
			t.GetPayer()
		}
		return err == nil
	}}, addr("address", b58chk([]byte{0x17}, Hashes(0)[0]), func(s string) bool { _, _, err := ont.DecodeCheck(s); return err == nil }))
	add(&Drv{Name: "wayki", Curve: K1, Gen: wiccGen, Bad: wiccBad, Tampers: hexTampers, Sign: wicc.SignRawTransaction},
		addr("address", b58chk([]byte{0x49}, Hashes(0)[0]), func(s string) bool { _, err := wicc.GetProgramHashFromAddress(s); return err == nil }),
		addr("decodecheck", b58chk([]byte{0x49}, Hashes(0)[0]), func(s string) bool { _, _, err := wicc.DecodeCheck(s); return err == nil }))
	add(&Drv{Name: "bigbang", Curve: Ed, Gen: bbcGen, Bad: bbcBad, Tampers: hexTampers, Sign: text(bbc.SignTransactionHash)})
}
