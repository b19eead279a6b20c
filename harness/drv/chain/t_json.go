//go:build go1.21

package chain

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	bnb "github.com/blocktree/go-owcdrivers/binancechainTransaction"
	cosmos "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	eva "github.com/blocktree/go-owcdrivers/evaioTransaction"
	dot "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
	"github.com/blocktree/go-owcdrivers/zzverif/spy"
)

type obj = map[string]interface{}
type arr = []interface{}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

// canon: the same JSON value with sorted keys and no spaces
func canon(s string) string {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if d.Decode(&v) != nil {
		return "not JSON: " + s
	}
	return js(v)
}

// textTampers: every byte of a text that is signed as it stands
func textTampers(e string) (l []Tamper) {
	for i := range []byte(e) {
		for _, x := range []byte{1, 2} {
			b := []byte(e)
			b[i] ^= x
			l = append(l, Tamper{fmt.Sprintf("byte %d changed", i), string(b)})
		}
		if i%16 == 0 {
			l = append(l, Tamper{fmt.Sprintf("byte %d dropped", i), e[:i] + e[i+1:]}, Tamper{fmt.Sprintf("space at %d", i), e[:i] + " " + e[i:]})
		}
	}
	return append(l, Tamper{"empty", ""}, Tamper{"cut", e[:len(e)-1]}, Tamper{"extended", e + "}"}, Tamper{"twice", e + e})
}

// valueTampers: every value of a flat JSON object changed
func valueTampers(e string) (l []Tamper) {
	m := obj{}
	d := json.NewDecoder(strings.NewReader(e))
	d.UseNumber()
	d.Decode(&m)
	put := func(k string, v interface{}) {
		c := obj{}
		for a, b := range m {
			c[a] = b
		}
		if v == nil {
			delete(c, k)
		} else {
			c[k] = v
		}
		l = append(l, Tamper{k + " changed to " + js(v), js(c)})
	}
	for _, k := range strings.Split("sender_pubkey recipient_pubkey amount nonce fee block_height block_hash genesis_hash spec_version txVersion", " ") {
		switch v := m[k].(type) {
		case string:
			b := unhex(v)
			for i := range b {
				b[i] ^= 1
				put(k, hx(b))
				b[i] ^= 1
			}
			put(k, v[2:])
			put(k, v+"00")
			put(k, "")
			put(k, "g"+v[1:])
			put(k, nil)
		case json.Number:
			n, _ := strconv.ParseUint(string(v), 10, 64)
			for i := 0; i < 64; i++ {
				if k == "block_height" && i >= 6 {
					continue // the transaction only carries the height modulo 64
				}
				put(k, json.Number(strconv.FormatUint(n^1<<uint(i), 10)))
			}
			put(k, json.Number("-1"))
			put(k, json.Number("1e30"))
			put(k, string(v))
		}
	}
	return append(l, Tamper{"empty", ""}, Tamper{"cut", e[:len(e)-1]}, Tamper{"no object", "[]"}, Tamper{"null", "null"})
}

var memos = []string{"", "a", "transfer 42", `say "hi" \ there`, "<b>&amp;</b>", "line\nbreak\ttab\r", "中文 memo €", "\u2028\u2029", strings.Repeat("m", 256), "\x00\x01\x7f", `{"memo":"x"}`, "0", " lead and trail "}

// ---------------------------------------------------------------- Cosmos and EVA

type cosIn struct {
	chainID, memo  string
	acct, seq      int
	gas            int64
	fee            [][2]interface{} // denom, amount
	msgs           []cosMsg
	typ, key, mode string
}
type cosMsg struct {
	from, to string
	coins    [][2]interface{}
}

type cosDrv struct {
	name, hrp string
	create    func(in cosIn) (string, string, error)
	verify    func(e, sig string, pub []byte) bool
	send      func(in cosIn, sig string, pub []byte) (string, error)
	sign      func(h string, p []byte) (string, error)
	withAcct  bool
}

func b32(hrp string, h []byte) string { return ref.Bech32Raw(hrp, ref.To5(h), 1) }

func coinsJSON(c [][2]interface{}) arr {
	r := arr{}
	for _, p := range c {
		r = append(r, obj{"amount": fmt.Sprint(p[1]), "denom": p[0]})
	}
	return r
}

func (d *cosDrv) base(s Src) (cosIn, *Key) {
	var in cosIn
	k := ownerOf(s, K1, 0, ref.Hash160)
	in.chainID = Dev(s, "chain", "gaia-13003", "cosmoshub-4", "", "x", `a"b`, strings.Repeat("c", 60))
	in.memo = Dev(s, "memo", memos...)
	in.acct = int(Dev(s, "account", I64...))
	in.seq = int(Dev(s, "sequence", I64...))
	in.gas = Dev(s, "gas", I64...)
	denoms := []string{"muon", "uatom", "neva", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "a&b"}
	fd, fa := Dev(s, "feedenom", denoms...), Dev(s, "fee", I64...)
	in.fee = [][2]interface{}{{fd, fa}}
	if fa != 0 && Dev(s, "fees", 1, 2) == 2 {
		in.fee = append(in.fee, [2]interface{}{"second", int64(7)})
	}
	n := 1 + s.Choose("ins", 2)
	for i := 0; i < n; i++ {
		m := cosMsg{from: b32(d.hrp, ref.Hash160(k.Pub)), to: b32(d.hrp, Dev(s, fmt.Sprintf("dest%d", i), append(Hashes(i), ref.Hash160(k.Pub))...))}
		m.coins = [][2]interface{}{{Dev(s, fmt.Sprintf("denom%d", i), denoms...), Dev(s, fmt.Sprintf("amount%d", i), I64[2:]...)}}
		if s.Choose("outs", 2) == 1 {
			m.coins = append(m.coins, [2]interface{}{"zeta", Dev(s, fmt.Sprintf("amount%db", i), I64[2:]...)})
		}
		in.msgs = append(in.msgs, m)
	}
	in.typ = Dev(s, "type", "cosmos-sdk/MsgSend", "x/MsgSend", "")
	in.key = Dev(s, "keytype", "tendermint/PubKeySecp256k1", "k")
	in.mode = Dev(s, "mode", "block", "sync", "async")
	return in, k
}

func (d *cosDrv) gen(s Src) *Case {
	in, k := d.base(s)
	fees := in.fee
	if fees[0][1].(int64) == 0 {
		fees = nil
	}
	fee := obj{"amount": coinsJSON(fees), "gas": fmt.Sprint(in.gas)}
	var ms arr
	for _, m := range in.msgs {
		ms = append(ms, obj{"type": in.typ, "value": obj{"amount": coinsJSON(m.coins), "from_address": m.from, "to_address": m.to}})
	}
	want := js(obj{"account_number": fmt.Sprint(in.acct), "chain_id": in.chainID, "fee": fee, "memo": in.memo, "msgs": ms, "sequence": fmt.Sprint(in.seq)})
	return &Case{Owners: []*Key{k},
		Create: func() (string, []string, error) {
			e, h, err := d.create(in)
			return e, []string{h}, err
		},
		Check: func(e string, dg []string) string {
			if m := diff("the unsigned transaction", e, want); m != "" {
				return m
			}
			return diffAll("digest", dg, []string{hx(ref.Sha256([]byte(want)))})
		},
		Combine: func(e string, sp []SP) (bool, string) {
			if len(sp) != 1 {
				return false, ""
			}
			full := sp[0].Pub
			if len(full) == 33 {
				if x, y := ref.K1.Decompress(full); x != nil {
					full = ref.Cat(ref.Pad(x, 32), ref.Pad(y, 32))
				}
			}
			if !d.verify(e, hx(sp[0].Sig), full) {
				return false, ""
			}
			t, err := d.send(in, hx(sp[0].Sig), sp[0].Pub)
			return err == nil, canon(t)
		},
		Want: func(e string, sp []SP) string {
			b := base64.StdEncoding.EncodeToString
			sig := obj{"signature": b(sp[0].Sig), "pub_key": obj{"type": in.key, "value": b(sp[0].Pub)}}
			if d.withAcct {
				sig["account_number"], sig["sequence"] = fmt.Sprint(in.acct), fmt.Sprint(in.seq)
			}
			return canon(js(obj{"mode": in.mode, "tx": obj{"msg": ms, "fee": fee, "memo": in.memo, "signatures": arr{sig}}}))
		}}
}

func (d *cosDrv) bad(s Src) func() (string, error) {
	in, _ := d.base(Fixed{})
	in.msgs = append(in.msgs, cosMsg{in.msgs[0].from, b32(d.hrp, Hashes(1)[0]), [][2]interface{}{{"muon", int64(5)}}})
	at := s.Choose("position", 2)
	h := Hashes(0)[0]
	foreign := []string{b32("bnb", h), b32("cosmosvaloper", h), b32(d.hrp, h[:19]), b32(d.hrp, nil), b32(d.hrp, ref.Cat(h, []byte{1})), ref.Bech32Raw(d.hrp, ref.To5(h), 0x2bc830a3), strings.ToUpper(b32(d.hrp, h)[:10]) + b32(d.hrp, h)[10:], b58chk([]byte{0}, h)}
	switch Pick(s, "field", "from", "to", "account", "sequence", "gas", "amount", "fee", "no-messages", "no-coins", "zero-amount") {
	case "from":
		in.msgs[at].from = badAddr(s, "value", in.msgs[at].from, foreign...)
	case "to":
		in.msgs[at].to = badAddr(s, "value", in.msgs[at].to, foreign...)
	case "account":
		in.acct = Pick(s, "value", -1, -1<<63)
	case "sequence":
		in.seq = Pick(s, "value", -1, -1<<63)
	case "gas":
		in.gas = Pick(s, "value", int64(-1), -1<<63)
	case "amount":
		in.msgs[at].coins[0][1] = Pick(s, "value", int64(-1), -1<<63)
	case "fee":
		in.fee[0][1] = Pick(s, "value", int64(-1), -1<<63)
	case "no-messages":
		in.msgs = nil
	case "no-coins":
		in.msgs[at].coins = nil
	case "zero-amount":
		in.msgs[at].coins[0][1] = int64(0)
	}
	return func() (string, error) { e, _, err := d.create(in); return e, err }
}

func (c *cosDrv) register() {
	d := &Drv{Name: c.name, Acct: true, Curve: K1, Gen: c.gen, Bad: c.bad, Tampers: textTampers, Sign: func(h string, p []byte) ([]byte, error) {
		t, err := c.sign(h, p)
		return unhex(t), err
	}}
	d.Raw = []Entry{combineEntry(d), signEntry(d)}
	reg(d)
}

// ---------------------------------------------------------------- Binance Chain

func uv(n uint64) []byte {
	var b []byte
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

func pb(tag byte, b []byte) []byte { return ref.Cat([]byte{tag}, uv(uint64(len(b))), b) }
func pbn(tag byte, n uint64) []byte {
	if n == 0 {
		return nil
	}
	return ref.Cat([]byte{tag}, uv(n))
}
func pbs(tag byte, s string) []byte {
	if s == "" {
		return nil
	}
	return pb(tag, []byte(s))
}

// the chain sorts the text to sign through float64; only what survives that can be asked for
func floats(a int64) bool {
	return strconv.FormatFloat(float64(a), 'f', -1, 64) == strconv.FormatInt(a, 10)
}

func bnbGen(s Src) *Case {
	k := ownerOf(s, K1, 0, ref.Hash160)
	from, to := NameOf(k, ref.Hash160), Dev(s, "dest", append(Hashes(0), ref.Hash160(k.Pub))...)
	denom := Dev(s, "denom", "BNB", "BUSD-BD1", "a", `q"<>&`, strings.Repeat("D", 130))
	var amounts []int64
	for _, a := range append(append([]int64{}, I64[2:]...), 9000000000000000000, 1<<53-1, 1<<53, 123456789012345000) {
		if floats(a) {
			amounts = append(amounts, a)
		}
	}
	amount := Dev(s, "amount", amounts...)
	acct, seq, src := Dev(s, "account", I64...), Dev(s, "sequence", I64...), Dev(s, "source", I64...)
	memo := Dev(s, "memo", memos...)
	side := func(h []byte) arr {
		return arr{obj{"address": b32("bnb", h), "coins": arr{obj{"amount": amount, "denom": denom}}}}
	}
	want := js(obj{"account_number": fmt.Sprint(acct), "chain_id": "Binance-Chain-Tigris", "data": nil, "memo": memo, "msgs": arr{obj{"inputs": side(from), "outputs": side(to)}}, "sequence": fmt.Sprint(seq), "source": fmt.Sprint(src)})
	coin := ref.Cat(pbs(0x0a, denom), pbn(0x10, uint64(amount)))
	io := func(h []byte) []byte { return ref.Cat(pb(0x0a, h), pb(0x12, coin)) }
	return &Case{Owners: []*Key{k}, Names: true,
		Create: func() (string, []string, error) {
			e, h, err := bnb.CreateEmptyTransactionAndHash(b32("bnb", from), b32("bnb", to), denom, amount, acct, seq, src, memo)
			return e, []string{h}, err
		},
		Check: func(e string, dg []string) string {
			if m := diff("the unsigned transaction", e, want); m != "" {
				return m
			}
			return diffAll("digest", dg, []string{hx(ref.Sha256([]byte(want)))})
		},
		Combine: func(e string, sp []SP) (bool, string) {
			if len(sp) != 1 {
				return false, ""
			}
			ok, t := bnb.VerifyAndCombineRawTransaction(e, hx(sp[0].Sig), hx(sp[0].Pub))
			if ok {
				x, err := bnb.DecodeRawTransaction(unhex(t))
				if err != nil || x.Memo != memo || x.Source != src || len(x.Signatures) != 1 || x.Signatures[0].AccountNumber != acct || x.Signatures[0].Sequence != seq || hx(x.Signatures[0].Signature) != hx(sp[0].Sig) {
					return true, fmt.Sprintf("decoding it gives %+v, error %v", x, err)
				}
			}
			return ok, t
		},
		Want: func(e string, sp []SP) string {
			m := ref.Cat(ref.MustHex("2a2c87fa"), pb(0x0a, io(from)), pb(0x12, io(to)))
			sig := ref.Cat(pb(0x0a, ref.Cat(ref.MustHex("eb5ae98721"), sp[0].Pub)), pb(0x12, sp[0].Sig), pbn(0x18, uint64(acct)), pbn(0x20, uint64(seq)))
			b := ref.Cat(ref.MustHex("f0625dee"), pb(0x0a, m), pb(0x12, sig), pbs(0x1a, memo), pbn(0x20, uint64(src)))
			return hx(ref.Cat(uv(uint64(len(b))), b))
		}}
}

func bnbBad(s Src) func() (string, error) {
	h := Hashes(0)[0]
	from, to := b32("bnb", ref.Hash160(KeyN(K1, 0).Pub)), b32("bnb", h)
	amount, acct, seq := int64(5), int64(1), int64(2)
	foreign := []string{b32("tbnb", h), b32("cosmos", h), b32("bnbp", h), b32("bnb", h[:19]), b32("bnb", ref.Cat(h, []byte{1})), b32("bnb", ref.Cat(h, h[:12])), ref.Bech32Raw("bnb", ref.To5(h), 0x2bc830a3), strings.ToUpper(b32("bnb", h)[:10]) + b32("bnb", h)[10:]}
	switch Pick(s, "field", "from", "to", "amount", "account", "sequence") {
	case "from":
		from = badAddr(s, "value", from, foreign...)
	case "to":
		to = badAddr(s, "value", to, foreign...)
	case "amount":
		amount = Pick(s, "value", int64(0), -1, -1<<63, 1<<53+1, 1<<56, 0x0102030405060708, 1<<62, 1<<63-1)
	case "account":
		acct = Pick(s, "value", int64(-1), -1<<63)
	case "sequence":
		seq = Pick(s, "value", int64(-1), -1<<63)
	}
	return func() (string, error) {
		e, _, err := bnb.CreateEmptyTransactionAndHash(from, to, "BNB", amount, acct, seq, 0, "")
		return e, err
	}
}

// ---------------------------------------------------------------- Polkadot

func scale(n uint64) []byte {
	switch {
	case n < 1<<6:
		return []byte{byte(n << 2)}
	case n < 1<<14:
		return ref.LE16(uint16(n<<2 | 1))
	case n < 1<<30:
		return ref.LE32(uint32(n<<2 | 2))
	}
	b := ref.LE64(n)
	for len(b) > 4 && b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	return ref.Cat([]byte{byte((len(b)-4)<<2 | 3)}, b)
}

var scaleEdges = []uint64{12, 1, 2, 63, 64, 65, 255, 256, 1000, 16383, 16384, 16385, 65535, 65536, 1 << 20, 1<<24 - 1, 1 << 24, 1<<30 - 1, 1 << 30, 1<<30 + 1, 1<<32 - 1, 1 << 32, 0x0102030405, 1<<40 - 1, 1 << 40, 1<<48 - 1, 1 << 48, 1<<56 - 1, 1 << 56, 0x0102030405060708, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1, 0xff00, 0xc0, 0xc000, 0xc00000, 0x3f000000}

func dotGen(s Src) *Case {
	k := ownerOf(s, Ed, 0, ref.Sha256)
	dest := Dev(s, "dest", append(IDs(3), k.Pub)...)
	amount := Dev(s, "amount", scaleEdges...)
	nonce := Dev(s, "nonce", append([]uint64{1, 0}, scaleEdges[2:]...)...)
	fee := Dev(s, "tip", append([]uint64{20, 0}, scaleEdges[1:]...)...)
	height := Dev(s, "height", append([]uint64{1778228, 1, 2, 15, 16, 17, 31, 32, 62, 63, 64, 65, 127, 128}, U64[2:]...)...)
	bh, gh := Dev(s, "block", IDs(4)...), Dev(s, "genesis", IDs(5)...)
	spec, txv := Dev(s, "spec", U32...), Dev(s, "version", U32...)
	code := Dev(s, "code", dot.KSM_Balannce_Transfer, dot.DOT_Balannce_Transfer, "0400", "040300")
	ts := dot.TxStruct{SenderPubkey: hx(k.Pub), RecipientPubkey: hx(dest), Amount: amount, Nonce: nonce, Fee: fee, BlockHeight: height, BlockHash: hx(bh), GenesisHash: hx(gh), SpecVersion: spec, TxVersion: txv}
	era := ref.LE16(uint16(height%64<<4 | 5))
	method := ref.Cat(unhex(code), dest, scale(amount))
	return &Case{Owners: []*Key{k},
		Create: func() (string, []string, error) {
			e, m, err := ts.CreateEmptyTransactionAndMessage(code)
			return e, []string{m}, err
		},
		Check: func(e string, dg []string) string {
			w := canon(js(obj{"sender_pubkey": hx(k.Pub), "recipient_pubkey": hx(dest), "amount": amount, "nonce": nonce, "fee": fee, "block_height": height, "block_hash": hx(bh), "genesis_hash": hx(gh), "spec_version": spec, "txVersion": txv}))
			if m := diff("the unsigned transaction", canon(e), w); m != "" {
				return m
			}
			if t, err := dot.NewTxStructFromJSON(e); err != nil || *t != ts {
				return fmt.Sprintf("reading it back gives %+v, error %v", t, err)
			}
			return diffAll("message", dg, []string{hx(ref.Cat(method, era, scale(nonce), scale(fee), ref.LE32(spec), ref.LE32(txv), gh, bh))})
		},
		Combine: func(e string, sp []SP) (bool, string) {
			if len(sp) != 1 {
				return false, ""
			}
			if p := hx(sp[0].Pub); p != hx(k.Pub) { // the key travels inside the transaction
				e = strings.Replace(e, hx(k.Pub), p, 1)
			}
			t, ok := dot.VerifyAndCombineTransaction(code, e, hx(sp[0].Sig))
			return ok, t
		},
		Want: func(e string, sp []SP) string {
			b := ref.Cat([]byte{0x84, 0}, sp[0].Pub, []byte{0}, sp[0].Sig, era, scale(nonce), scale(fee), method)
			return "0x" + hx(ref.Cat(scale(uint64(len(b))), b))
		}}
}

func dotBad(s Src) func() (string, error) {
	id := hx(IDs(3)[0])
	ts := dot.TxStruct{SenderPubkey: hx(KeyN(Ed, 0).Pub), RecipientPubkey: id, Amount: 5, Nonce: 1, Fee: 1, BlockHeight: 5, BlockHash: id, GenesisHash: id, SpecVersion: 1, TxVersion: 1}
	code := dot.DOT_Balannce_Transfer
	switch Pick(s, "field", "sender", "recipient", "block", "genesis", "amount", "height", "code") {
	case "sender":
		ts.SenderPubkey = badID(s, "value", ts.SenderPubkey)
	case "recipient":
		ts.RecipientPubkey = badID(s, "value", id)
	case "block":
		ts.BlockHash = badID(s, "value", id)
	case "genesis":
		ts.GenesisHash = badID(s, "value", id)
	case "amount":
		ts.Amount = 0
	case "height":
		ts.BlockHeight = 0
	case "code":
		code = Pick(s, "value", "", "0", "zz", "0x0400", "04000g")
	}
	return func() (string, error) { e, _, err := ts.CreateEmptyTransactionAndMessage(code); return e, err }
}

func init() {
	cc := func(c [][2]interface{}) (r cosmos.Coins) {
		for _, p := range c {
			r = append(r, cosmos.NewCoin(p[0].(string), p[1].(int64)))
		}
		return
	}
	ctx := func(in cosIn) cosmos.TxStruct {
		f := cosmos.NewStdFee(in.gas, cc(in.fee))
		var m []cosmos.Message
		for _, x := range in.msgs {
			m = append(m, cosmos.NewMessage(in.typ, cosmos.NewMsgSend(x.from, x.to, cc(x.coins))))
		}
		return cosmos.NewTxStruct(in.chainID, in.memo, in.acct, in.seq, &f, m)
	}
	(&cosDrv{name: "cosmos", hrp: "cosmos", withAcct: true,
		create: func(in cosIn) (string, string, error) { return spy.P(ctx(in)).CreateEmptyTransactionAndHash() },
		verify: cosmos.VerifyTransactionSig, sign: cosmos.SignTransactionHash,
		send: func(in cosIn, sig string, pub []byte) (string, error) {
			r, err := spy.P(ctx(in)).CreateJsonForSend(sig, spy.A(pub), in.key, in.mode)
			if err != nil {
				return "", err
			}
			return r.Raw, nil
		}}).register()
	ec := func(c [][2]interface{}) (r eva.Coins) {
		for _, p := range c {
			r = append(r, eva.NewCoin(p[0].(string), p[1].(int64)))
		}
		return
	}
	etx := func(in cosIn) eva.TxStruct {
		f := eva.NewStdFee(in.gas, ec(in.fee))
		var m []eva.Message
		for _, x := range in.msgs {
			m = append(m, eva.NewMessage(in.typ, eva.NewMsgSend(x.from, x.to, ec(x.coins))))
		}
		return eva.NewTxStruct(in.chainID, in.memo, in.acct, in.seq, &f, m)
	}
	(&cosDrv{name: "eva", hrp: "eva",
		create: func(in cosIn) (string, string, error) { return spy.P(etx(in)).CreateEmptyTransactionAndHash() },
		verify: eva.VerifyTransactionSig, sign: eva.SignTransactionHash,
		send: func(in cosIn, sig string, pub []byte) (string, error) {
			r, err := spy.P(etx(in)).CreateJsonForSend(sig, spy.A(pub), in.key, in.mode)
			if err != nil {
				return "", err
			}
			return r.Raw, nil
		}}).register()
	d := &Drv{Name: "binance", Acct: true, Curve: K1, Gen: bnbGen, Sign: bnb.SignRawTransaction, Bad: bnbBad, Tampers: textTampers}
	d.Raw = []Entry{combineEntry(d), signEntry(d), {Name: "decode", Base: func() []string {
		c := bnbGen(Fixed{})
		e, dg, _ := c.Create()
		return []string{c.Want(e, []SP{{craft(c.Owners[0], digestBytes(dg[0]), "plain"), c.Owners[0].Pub}})}
	}, Call: func(a []string) bool { _, err := bnb.DecodeRawTransaction(unhex(a[0])); return err == nil }}}
	reg(d)
	d = &Drv{Name: "polkadot", Acct: true, Curve: Ed, Gen: dotGen, Sign: dot.SignTransaction, Bad: dotBad, Tampers: valueTampers}
	d.Raw = []Entry{combineEntry(d), signEntry(d)}
	reg(d)
}
