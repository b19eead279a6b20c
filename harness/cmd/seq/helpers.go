//go:build go1.21

package main

import (
	"fmt"
	"math/big"
	"strings"

	addr "github.com/blocktree/go-owcdrivers/addressEncoder"
	alien "github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	bbc "github.com/blocktree/go-owcdrivers/bigbangTransaction"
	bnb "github.com/blocktree/go-owcdrivers/binancechainTransaction"
	bytom "github.com/blocktree/go-owcdrivers/bytomTransaction"
	cosmos "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	elastos "github.com/blocktree/go-owcdrivers/elastosTransaction"
	eva "github.com/blocktree/go-owcdrivers/evaioTransaction"
	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	hyper "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	mate "github.com/blocktree/go-owcdrivers/mateverseTransaction"
	moac "github.com/blocktree/go-owcdrivers/moacchainTransaction"
	ont "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	"github.com/blocktree/go-owcdrivers/owkeychain"
	dot "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	xrp "github.com/blocktree/go-owcdrivers/rippleTransaction"
	verge "github.com/blocktree/go-owcdrivers/vergeTransaction"
	vollar "github.com/blocktree/go-owcdrivers/vollarTransaction"
	wicc "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	"github.com/blocktree/go-owcrypt"

	"github.com/blocktree/go-owcdrivers/zzverif/ref"
	"github.com/blocktree/go-owcdrivers/zzverif/spy"
)

func fixed(n int, seed byte) []byte {
	var b []byte
	for i := byte(0); len(b) < n; i++ {
		b = append(b, ref.Sha256([]byte{seed, i})...)
	}
	return b[:n:n]
}

// again calls f twice on the same object: the second answer has to be the first one.
func again(f func() string) string {
	a := f()
	if b := f(); a != b {
		return "twice the same call on the same object: first " + a + " then " + b
	}
	return a
}

func payload(p ref.Profile, v byte) []byte {
	b := fixed(p.Len, v)
	if p.Kind == "cash" {
		b[0] = 0
	}
	return b
}

func helperOps() {
	for i, p := range profiles {
		p := p
		g := "addressEncoder"
		for v := byte(0); v < 2; v++ {
			v := v
			add(g, fmt.Sprintf("encode %s %d", p.Ref.Name, v), func() string {
				return res(addr.AddressEncode(spy.A(payload(p.Ref, v)), spy.A(p.Impl)))
			})
			text := p.Ref.Encode(payload(p.Ref, v))
			add(g, fmt.Sprintf("decode %s %d", p.Ref.Name, v), func() string { return res(addr.AddressDecode(text, spy.A(p.Impl))) })
		}
		if i%5 == 0 {
			text := p.Ref.Encode(payload(p.Ref, 3))
			bad := text[:len(text)-1] + string(text[len(text)-1]^1)
			add(g, "decode bad "+p.Ref.Name, func() string { return res(addr.AddressDecode(bad, spy.A(p.Impl))) })
		}
	}
	for _, sym := range []string{"BTC", "LTC", "BCH", "ETH", "TRX", "QTUM", "NAS", "XRP", "BTM", "ICX", "AE", "EOS", "VSYS", "DCRD"} {
		for k, p := range profiles {
			if k%37 == 0 {
				sym, text := sym, p.Ref.Encode(payload(p.Ref, 4))
				add("addressEncoder", "check "+sym+" "+p.Ref.Name, func() string { return res(addr.AddressCheck(text, sym)) })
			}
		}
	}
	for _, t := range []string{"doubleSHA256", "doubleBlake256", "keccak256", "sha3_256", "ripemd160"} {
		t := t
		add("addressEncoder", "checksum "+t, func() string { return res(addr.CalcChecksum(spy.A(fixed(24, 1)), t)) })
		add("addressEncoder", "verifychecksum "+t, func() string { return res(addr.VerifyChecksum(spy.A(fixed(24, 1)), t)) })
	}
	add("addressEncoder", "cat", func() string { return res(addr.CatData(spy.A(fixed(5, 1)), spy.A(fixed(6, 2)))) })
	add("addressEncoder", "crc32", func() string { return res(addr.CRC32(spy.A(fixed(30, 1)))) })
	for _, al := range []string{ref.B58, ref.B58XRP} {
		al := al
		add("addressEncoder", "base58 enc "+al[:3], func() string {
			return res(addr.Base58Encode(spy.A(append([]byte{0, 0}, fixed(20, 1)...)), spy.P(addr.NewBase58Alphabet(al))))
		})
		add("addressEncoder", "base58 dec "+al[:3], func() string {
			return res(addr.Base58Decode(ref.B58Enc(fixed(20, 1), al), spy.P(addr.NewBase58Alphabet(al))))
		})
		for _, e := range []string{"base58", "base32PolyMod", "eip55", "ICAP"} {
			e := e
			add("addressEncoder", "encodedata "+e+al[:3], func() string { return res(addr.EncodeData(spy.A(fixed(25, 1)), e, al)) })
		}
		add("addressEncoder", "decodedata "+al[:3], func() string {
			s := ref.B58Enc(ref.Cat([]byte{5}, fixed(20, 1), ref.Checksum4("doubleSHA256", ref.Cat([]byte{5}, fixed(20, 1)))), al)
			return res(addr.DecodeData(s, "base58", al, "doubleSHA256", spy.A([]byte{5}), spy.A([]byte{})))
		})
	}
	for i, c := range checkCodecs {
		c := c
		g := "codec " + c.Name
		for v := range c.Ver {
			if v > 1 {
				break
			}
			v := v
			if c.Enc != nil {
				add(g, fmt.Sprintf("encodecheck %d", v), func() string { return res(c.Enc(spy.A(c.Ver[v]), spy.A(fixed(20, byte(v))))) })
			}
			text := c.ref(c.Ver[v], fixed(20, byte(v)))
			add(g, fmt.Sprintf("decodecheck %d", v), func() string { return res(c.Dec(text, spy.A(c.Ver[v]))) })
			if v == 0 {
				add(g, "decodecheck bad", func() string { return res(c.Dec(text[:len(text)-1]+"1", spy.A(c.Ver[v]))) })
				near := fixed(20, 0)
				near[19]++
				if c.Enc != nil {
					add(g, "encodecheck near", func() string { return res(c.Enc(spy.A(c.Ver[0]), spy.A(near))) })
				}
				nt := c.ref(c.Ver[0], near)
				add(g, "decodecheck near", func() string { return res(c.Dec(nt, spy.A(c.Ver[0]))) })
				if len(c.Ver) > 1 {
					if c.Enc != nil {
						add(g, "encodecheck version", func() string { return res(c.Enc(spy.A(c.Ver[1]), spy.A(fixed(20, 0)))) })
					}
					add(g, "decodecheck version", func() string { return res(c.Dec(text, spy.A(c.Ver[1]))) })
				}
			}
		}
		_ = i
	}
	for _, c := range rawCodecs {
		c := c
		al := ref.B58
		if c.Xrp {
			al = ref.B58XRP
		}
		for v := 0; v < 2; v++ {
			v := v
			in := append(make([]byte, v), fixed(10+v, byte(v))...)
			add("codec "+c.Name, fmt.Sprintf("base58enc %d", v), func() string { return res(c.Enc(spy.A(in))) })
			add("codec "+c.Name, fmt.Sprintf("base58dec %d", v), func() string { return res(c.Dec(ref.B58Enc(in, al))) })
		}
	}
	for _, c := range b32Codecs {
		c := c
		for v := 0; v < 2; v++ {
			v := v
			add("codec "+c.Name, fmt.Sprintf("bech32enc %d", v), func() string { return res(c.encSpy(v)) })
			add("codec "+c.Name, fmt.Sprintf("bech32dec %d", v), func() string { return res(c.decSpy(v)) })
		}
	}
	g := "bytom"
	add(g, "convertbits 85", func() string { return res(bytom.ConvertBits(spy.A(fixed(20, 1)), 8, 5, true)) })
	add(g, "convertbits 58", func() string { return res(bytom.ConvertBits(spy.A(ref.To5(fixed(20, 1))), 5, 8, false)) })
	add(g, "bech32encode 1", func() string { return res(bytom.Bech32Encode("bm", spy.A(ref.To5(fixed(20, 1))))) })
	add(g, "bech32encode 2", func() string { return res(bytom.Bech32Encode("tm", spy.A(ref.To5(fixed(32, 2))))) })
	for v := 0; v < 4; v++ {
		v := v
		add(g, fmt.Sprintf("multisig %d", v), func() string {
			return res(bytom.CreateMultiSig(byte(1+v/2), spy.A([][]byte{fixed(32, byte(v)), fixed(32, 9)}), v%2 == 1))
		})
	}

	// transaction structures: the same object asked twice
	for v := 0; v < 2; v++ {
		v := v
		id := func(i int) string { return hx(fixed(32, byte(i))) }
		n := v + 1
		lock := func(i int) string { return hx(ref.P2PKH(fixed(20, byte(i)))) }
		b58a := func(p []byte, i int) string { return b58(p, fixed(20, byte(i))) }
		add("alien", fmt.Sprintf("struct %d", v), func() string {
			var a []alien.Vin
			var b []alien.Vout
			for i := 0; i < n; i++ {
				a = append(a, alien.Vin{TxID: id(i), Vout: uint32(i), LockScript: lock(i)})
				b = append(b, alien.Vout{Address: b58a([]byte{0x17}, i), Amount: uint64(i + 5)})
			}
			t, err := alien.NewTxStruct(spy.A(a), spy.A(b), uint32(v))
			if err != nil {
				return res(err)
			}
			return again(func() string { h, err := t.GetHash(); return res(t.ToBytes(), h, err, t.ToBytes()) })
		})
		add("alien", fmt.Sprintf("parts %d", v), func() string {
			i, e1 := (alien.Vin{TxID: id(v), Vout: 3, LockScript: lock(v)}).NewTxIn()
			o, e2 := (alien.Vout{Address: b58a([]byte{0x17}, v), Amount: 9}).NewTxOut()
			if e1 != nil || e2 != nil {
				return res(e1, e2)
			}
			sp := spy.A(alien.SigPub{Pubkey: ordinary[v].pub, Signature: fixed(64, 1)})
			return again(func() string { return res(i.ToBytes(), o.ToBytes(), sp.ToBytes()) })
		})
		add("alien", fmt.Sprintf("decodestruct %d", v), func() string {
			t := corpus["alien/"]
			if t == nil {
				return ""
			}
			s, h, err := alien.DecodeTxStructRaw(t.E)
			return res(s, h, err)
		})
		add("verge", fmt.Sprintf("decodestruct %d", v), func() string {
			t := corpus["verge/"]
			if t == nil {
				return ""
			}
			s, h, err := verge.DecodeTxStructRaw(t.E)
			if err != nil {
				return res(err)
			}
			return again(func() string { g, err := s.GetHash(); return res(s.ToBytes(), g, err, h, s.ToBytes()) })
		})
		add("verge", fmt.Sprintf("parts %d", v), func() string {
			i, e1 := (verge.Vin{TxID: id(v), Vout: 3, LockScript: lock(v)}).NewTxIn()
			o, e2 := (verge.Vout{Address: b58a([]byte{0x1e}, v), Amount: 9}).NewTxOut()
			if e1 != nil || e2 != nil {
				return res(e1, e2)
			}
			sp := spy.A(verge.SigPub{Pubkey: ordinary[v].pub, Signature: fixed(64, 1)})
			return again(func() string { return res(i.ToBytes(), o.ToBytes(), sp.ToBytes()) })
		})
		add("vollar", fmt.Sprintf("struct %d", v), func() string {
			var a []vollar.Vin
			var b []vollar.Vout
			for i := 0; i < n; i++ {
				a = append(a, vollar.Vin{TxID: id(i), Vout: uint32(i), LockScript: lock(i)})
				b = append(b, vollar.Vout{Address: b58a([]byte{0x10, 0x1c}, i), Amount: uint64(i + 5)})
			}
			t, err := vollar.NewTxStruct(spy.A(a), spy.A(b))
			if err != nil {
				return res(err)
			}
			return again(func() string { h, err := t.GetHash(); return res(t.ToBytes(), h, err, t.ToBytes()) })
		})
		add("vollar", fmt.Sprintf("parts %d", v), func() string {
			i, e1 := (vollar.Vin{TxID: id(v), Vout: 3, LockScript: lock(v)}).NewTxIn()
			o, e2 := (vollar.Vout{Address: b58a([]byte{0x10, 0x1c}, v), Amount: 9}).NewTxOut()
			if e1 != nil || e2 != nil {
				return res(e1, e2)
			}
			sp := spy.A(vollar.SigPub{Pubkey: ordinary[v].pub, Signature: fixed(64, 1)})
			return again(func() string { return res(i.ToBytes(), o.ToBytes(), sp.ToBytes()) })
		})
		add("vollar", fmt.Sprintf("decodestruct %d", v), func() string {
			t := corpus["vollar/"]
			if t == nil {
				return ""
			}
			s, h, err := vollar.DecodeTxStructRaw(t.E)
			return res(s, h, err)
		})
		add("bigbang", fmt.Sprintf("struct %d", v), func() string {
			var a []bbc.Vin
			for i := 0; i < n; i++ {
				a = append(a, bbc.Vin{TxID: id(i), Vout: byte(i)})
			}
			to := []string{"1j6x8vdkkbnxe8qwjggccan9c8m8zhmez7gm3pznsqxgch3eyrwxby8eda", ""}[v]
			t, err := bbc.NewTxStruct(1, 0, 1573799665, 0, id(7), spy.A(a), to, 5, 100, "")
			if err != nil {
				return res(err)
			}
			return again(func() string { return res(t.ToBytes(), t.GetHash(), t.ToBytes()) })
		})
		add("hypercash", fmt.Sprintf("struct %d", v), func() string {
			var a []hyper.Vin
			var b []hyper.Vout
			for i := 0; i < n; i++ {
				a = append(a, hyper.Vin{TxID: id(i), Vout: uint32(i), Amount: 9, LockScript: lock(i), BlockHeight: 5, BlockIndex: 6})
				b = append(b, hyper.Vout{Amount: 8, Address: hcAddr([]byte{0x09, 0x7f}, fixed(20, byte(i)))})
			}
			t, err := hyper.NewTxStruct(spy.A(a), spy.A(b), 1, 2)
			if err != nil {
				return res(err)
			}
			return again(func() string {
				h, err := t.GetHash(0)
				x, err2 := t.ToBytes(0, 0)
				y, err3 := t.ToBytes(0, 1)
				return res(h, err, x, err2, y, err3)
			})
		})
		add("elastos", fmt.Sprintf("struct %d", v), func() string {
			var a []elastos.Vin
			var b []elastos.Vout
			for i := 0; i < n; i++ {
				a = append(a, elastos.Vin{TxID: id(i), Vout: uint16(i), Address: b58a([]byte{0x21}, i)})
				b = append(b, elastos.Vout{AssetID: id(9), Amount: 8, Address: b58a([]byte{0x21}, i)})
			}
			t, err := elastos.NewTransaction(spy.A(a), spy.A(b))
			if err != nil {
				return res(err)
			}
			return again(func() string { x, y := t.GetEmptyAndHash(); return res(x, y) })
		})
		add("elastos", fmt.Sprintf("parts %d", v), func() string {
			sp := spy.A(elastos.Sigpubs{{Signature: fixed(64, 1), PublicKey: fixed(33, 2)}, {Signature: fixed(64, 3), PublicKey: fixed(33, 4)}}[:n])
			return again(func() string {
				a, err := sp.ToBytes()
				b, err2 := sp[0].ToBytes()
				return res(a, err, b, err2)
			})
		})
		add("elastos", fmt.Sprintf("program %d", v), func() string { return res(elastos.GetProgramHashFromAddress(b58a([]byte{0x21}, v))) })
		add("wicc", fmt.Sprintf("program %d", v), func() string { return res(wicc.GetProgramHashFromAddress(b58a([]byte{0x49}, v))) })
		add("ripple", fmt.Sprintf("program %d", v), func() string {
			d := ref.Cat([]byte{0}, fixed(20, byte(v)))
			return res(xrp.GetProgramHashFromAddress(ref.B58Enc(ref.Cat(d, ref.DSha256(d)[:4]), ref.B58XRP)))
		})
		add("wicc", fmt.Sprintf("structs %d", v), func() string {
			to := b58a([]byte{0x49}, v)
			a, e1 := wicc.NewCommonTx("25813-1", to, 5+int64(v), 10000, 7)
			b, e2 := wicc.NewRegisterAccountTx(hx(ordinary[v].pub), 10000, 7)
			c, e3 := wicc.NewCallContractTx("25813-1", "24588-1", "f017", 7, 10000, 5)
			d, e4 := wicc.NewUcoinTransferTx("25813-1", to, "WICC", 7, 10000, 5)
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
				return res(e1, e2, e3, e4)
			}
			return again(func() string {
				return res(a.ToBytes(), a.GetHash(), b.ToBytes(), b.GetHash(), c.ToBytes(), c.GetHash(), d.ToBytes(), d.GetHash())
			})
		})
		add("wicc", fmt.Sprintf("sigpub %d", v), func() string {
			sp := spy.A(wicc.SigPub{PublicKey: ordinary[v].pub, Signature: fixed(64, byte(v))})
			return again(func() string { return res(sp.ToBytes()) })
		})
		add("fiii", fmt.Sprintf("parts %d", v), func() string {
			i, e1 := (fiii.Vin{TxID: id(v), Vout: v}).NewInputMsg()
			sp := spy.A(fiii.SigPub{Signature: fixed(64, 1), Pubkey: fixed(32, byte(v))})
			u, e2 := sp.GenUnlockScript()
			if e1 != nil {
				return res(e1, u, e2)
			}
			return again(func() string { return res(i.ToBytes(), u, e2) })
		})
		add("moac", fmt.Sprintf("struct %d", v), func() string {
			t, err := moac.NewTxStruct("0x"+hx(fixed(20, byte(v))), 1, spy.A(big.NewInt(5)), spy.A(big.NewInt(6)), spy.A(big.NewInt(7)), nil, v == 1)
			if err != nil {
				return res(err)
			}
			return again(func() string { return res(t.ToBytes()) })
		})
		add("ontology", fmt.Sprintf("invoke %d", v), func() string {
			f, t := b58a([]byte{0x17}, v), b58a([]byte{0x17}, v+5)
			a := ont.NewNativeInvoke(ont.TxState{AssetType: v, From: f, To: t, Amount: 5})
			b := ont.NewNativeInvokeV2(spy.A(ont.TxStateV2{AssetType: v, From: f, To: t, Amount: big.NewInt(5000)}))
			return again(func() string {
				x, e1 := a.ToBytes()
				y, e2 := b.ToBytes()
				return res(x, e1, y, e2)
			})
		})
		add("ontology", fmt.Sprintf("raw %d", v), func() string {
			t := ont.NewEmptyTransaction(v, 0xd1, 77, 500, 20000, b58a([]byte{0x17}, v), spy.A(fixed(40, byte(v))))
			return again(func() string {
				x, err := t.ToBytes()
				return res(x, err, t.GetVersion(), t.GetTxType(), t.GetNonce(), t.GetGasPrice(), t.GetGasLimit(), t.GetPayLoad(), t.GetPayer())
			})
		})
		add("binance", fmt.Sprintf("msg %d", v), func() string {
			a := func(i int) string { return ref.Bech32Raw("bnb", ref.To5(fixed(20, byte(i))), 1) }
			m, err := bnb.CreateSendMsg(a(v), a(9), "BNB", 5)
			return res(m, err)
		})
		add("binance", fmt.Sprintf("pubkey %d", v), func() string { return res(fmt.Sprint(bnb.NewPubkey(spy.A(ordinary[v].pub)))) })
		add("mateverse", fmt.Sprintf("inputs %d", v), func() string {
			t := corpus["mateverse/"]
			if t == nil {
				return ""
			}
			l, err := mate.GetInputsFromEmptyRawTransaction(t.E)
			if err != nil {
				return res(err)
			}
			for i := range l {
				l[i].SetLockScript(lock(i + v))
			}
			e1 := mate.GetSigHash(t.E, &l)
			r := res(l, e1)
			e2 := mate.GetSigHash(t.E, &l)
			if r2 := res(l, e2); r2 != r {
				return "digests asked for twice: first " + r + " then " + r2
			}
			return r
		})
		add("cosmos", fmt.Sprintf("pieces %d", v), func() string {
			cs := spy.P(cosmos.Coins{cosmos.NewCoin("uatom", int64(v+1))})
			m := cosmos.NewMessage("cosmos-sdk/MsgSend", cosmos.NewMsgSend("a", "b", cs))
			f := cosmos.NewStdFee(20000, cs)
			p := cosmos.NewPub(spy.A(ordinary[v].pub), "tendermint/PubKeySecp256k1")
			s := cosmos.NewSig(spy.A(fixed(64, 1)), "1", "2", p)
			t := cosmos.NewTxSend(cosmos.NewTx(spy.A([]cosmos.Message{m}), "memo", f, spy.A([]cosmos.Sig{s})), "block")
			i := cosmos.NewIntFromBigInt(spy.A(big.NewInt(int64(v))))
			return res(fmt.Sprintf("%+v", t), i.LT(cosmos.NewInt(1)), cosmos.ZeroInt().LT(i))
		})
		add("eva", fmt.Sprintf("pieces %d", v), func() string {
			cs := spy.P(eva.Coins{eva.NewCoin("neva", int64(v+1))})
			m := eva.NewMessage("cosmos-sdk/MsgSend", eva.NewMsgSend("a", "b", cs))
			f := eva.NewStdFee(20000, cs)
			p := eva.NewPub(spy.A(ordinary[v].pub), "tendermint/PubKeySecp256k1")
			s := eva.NewSig(spy.A(fixed(64, 1)), p)
			t := eva.NewTxSend(eva.NewTx(spy.A([]eva.Message{m}), "memo", f, spy.A([]eva.Sig{s})), "block")
			i := eva.NewIntFromBigInt(spy.A(big.NewInt(int64(v))))
			return res(fmt.Sprintf("%+v", t), i.LT(eva.NewInt(1)), eva.ZeroInt().LT(i))
		})
		add("polkadot", fmt.Sprintf("pieces %d", v), func() string {
			m, err := dot.NewMethodTransfer(hx(fixed(32, byte(v))), uint64(1+v*1000000000000))
			if err != nil {
				return res(err)
			}
			return again(func() string {
				b, err := m.ToBytes("0400")
				return res(b, err, dot.GetEra(uint64(1000+v*77)), dot.Encode(uint64(63+v)), dot.CompactLength(uint32(v*20000)), dot.ExtendLEBytes(spy.P(fixed(3, byte(v))), 8), dot.BytesToCompactBytes(spy.A(fixed(1+v*3, 1))))
			})
		})
	}
	keyOps()
	_ = strings.Repeat
}

func hcAddr(p, h []byte) string {
	d := ref.Cat(p, h)
	return ref.B58Enc(ref.Cat(d, ref.Checksum4("doubleBlake256", d)), ref.B58)
}

// long: the uncompressed form, where the curve has one
func long(k *owkeychain.ExtendedKey, c uint32) []byte {
	if c == owcrypt.ECC_CURVE_ED25519 {
		return nil
	}
	return k.GetUncompressedPublicKeyBytes()
}

func keyOps() {
	g := "owkeychain"
	curves := []uint32{owcrypt.ECC_CURVE_SECP256K1, owcrypt.ECC_CURVE_SECP256R1, owcrypt.ECC_CURVE_ED25519}
	for _, c := range curves {
		c := c
		for s := byte(0); s < 2; s++ {
			s := s
			if s == 1 && c == owcrypt.ECC_CURVE_SECP256R1 {
				continue
			}
			tag := fmt.Sprintf(" %x/%d", c, s)
			ct := []owkeychain.CoinType{owkeychain.Bitcoin, owkeychain.Ethereum}[s]
			add(g, "root"+tag, func() string { return res(owkeychain.InitRootKeyFromSeed(spy.A(fixed(32, s)), c)) })
			for _, p := range []string{"m/44'/88'/1'", "m/44/88", "m/0"} {
				p := p
				add(g, "derive "+p+tag, func() string { return res(owkeychain.DerivedPrivateKeyWithPath(spy.A(fixed(32, s)), p, c)) })
			}
			add(g, "coinroot"+tag, func() string {
				return res(owkeychain.GetCoinRootPublicKey(spy.A(fixed(32, s)), ct))
			})
			for _, n := range []uint32{0, 0x7fffffff} {
				n := n
				add(g, fmt.Sprintf("keybytes %d%s", n, tag), func() string {
					return res(owkeychain.DerivedPrivateKeyBytes(spy.A(fixed(32, s)), ct, n))
				})
			}
			priv := func() *owkeychain.ExtendedKey {
				k := ref.Sha256([]byte{s, byte(c)})
				k[0] &= 0x7f
				if c == owcrypt.ECC_CURVE_ED25519 {
					k[0] &= 248
					k[31] = k[31]&127 | 64
				}
				return owkeychain.NewExtendedKey(spy.A(k), spy.A(fixed(32, s+7)), spy.A(fixed(4, s)), 3, 9, true, c)
			}
			pub := func() *owkeychain.ExtendedKey {
				k := priv()
				return spy.P(k.GetPublicKey())
			}
			for _, n := range []uint32{5, 0x80000005} {
				n := n
				add(g, fmt.Sprintf("privchild %x%s", n, tag), func() string { k := spy.P(priv()); return again(func() string { return res(k.GenPrivateChild(n)) }) })
				add(g, fmt.Sprintf("pubchild %x%s", n, tag), func() string { k := pub(); return again(func() string { return res(k.GenPublicChild(n)) }) })
			}
			add(g, "pubpath"+tag, func() string {
				k := pub()
				return again(func() string { return res(k.DerivedPublicKeyFromPath("0/1")) })
			})
			add(g, "pubserial"+tag, func() string {
				k := pub()
				return again(func() string { return res(k.DerivedPublicKeyFromSerializes(3)) })
			})
			add(g, "bytes priv"+tag, func() string {
				k := spy.P(priv())
				return again(func() string {
					b, err := k.GetPrivateKeyBytes()
					return res(k.GetPublicKeyBytes(), long(k, c), k.GetPublicKey(), b, err, k.OWEncode())
				})
			})
			add(g, "bytes pub"+tag, func() string {
				k := pub()
				return again(func() string {
					b, err := k.GetPrivateKeyBytes()
					return res(k.GetPublicKeyBytes(), long(k, c), k.GetPublicKey(), b, err, k.OWEncode())
				})
			})
			add(g, "owround priv"+tag, func() string { return res(owkeychain.OWDecode(priv().OWEncode())) })
			add(g, "owround pub"+tag, func() string { return res(owkeychain.OWDecode(pub().OWEncode())) })
			add(g, "owround bad"+tag, func() string { t := pub().OWEncode(); return res(owkeychain.OWDecode(t[:len(t)-2])) })
			add(g, "share"+tag, func() string { return res(owkeychain.GetMultiSigShareData(pub().OWEncode())) })
			add(g, "chain"+tag, func() string {
				ms := spy.A(owkeychain.MultiSigShare{Pubkey: fixed(33, s), ChainCode: fixed(32, s+1), CurveType: c})
				t := ms.ChianEncode()
				d, err := owkeychain.ChainDecode(t)
				return res(t, d, err)
			})
		}
	}
	// keys and seeds that differ from one another in a single component
	for v := 0; v < 6; v++ {
		v := v
		priv := func() *owkeychain.ExtendedKey {
			c := owcrypt.ECC_CURVE_SECP256K1
			k, cc, fp, depth, ser := ref.Sha256([]byte("near")), fixed(32, 3), fixed(4, 3), uint8(3), uint32(9)
			k[0] &= 0x7f
			switch v {
			case 1:
				cc[31]++
			case 2:
				fp[3]++
			case 3:
				depth++
			case 4:
				ser++
			case 5:
				k[31] ^= 1
			}
			return owkeychain.NewExtendedKey(spy.A(k), spy.A(cc), spy.A(fp), depth, ser, true, c)
		}
		tag := fmt.Sprintf(" near %d", v)
		add(g, "privchild"+tag, func() string { return res(priv().GenPrivateChild(5)) })
		add(g, "privchild hard"+tag, func() string { return res(priv().GenPrivateChild(0x80000005)) })
		add(g, "pubchild"+tag, func() string { return res(priv().GetPublicKey().GenPublicChild(5)) })
		add(g, "encode"+tag, func() string { k := priv(); return res(k.OWEncode(), k.GetPublicKey().OWEncode()) })
	}
	near := fixed(32, 0)
	near[31]++
	for _, c := range curves {
		c := c
		tag := fmt.Sprintf(" near %x", c)
		add(g, "root"+tag, func() string { return res(owkeychain.InitRootKeyFromSeed(spy.A(near), c)) })
		for _, p := range []string{"m/44'/88'/1'", "m/44'/88'/2'", "m/44'/88'/1", "m/44'/88/1'"} {
			p := p
			add(g, "derive "+p+tag, func() string { return res(owkeychain.DerivedPrivateKeyWithPath(spy.A(near), p, c)) })
		}
	}
	for _, ct := range []owkeychain.CoinType{owkeychain.Bitcoin, owkeychain.Ethereum} {
		ct := ct
		add(g, fmt.Sprintf("coinroot near %v", ct), func() string { return res(owkeychain.GetCoinRootPublicKey(spy.A(near), ct)) })
		add(g, fmt.Sprintf("keybytes near %v", ct), func() string { return res(owkeychain.DerivedPrivateKeyBytes(spy.A(near), ct, 0)) })
		add(g, fmt.Sprintf("keybytes near 1 %v", ct), func() string { return res(owkeychain.DerivedPrivateKeyBytes(spy.A(near), ct, 1)) })
	}
	add(g, "base58check enc", func() string {
		return res(owkeychain.Base58checkEncode(spy.A(fixed(40, 1)), spy.A([]byte{1, 2, 3, 4})))
	})
	add(g, "base58check enc2", func() string {
		return res(owkeychain.Base58checkEncode(spy.A(fixed(40, 2)), spy.A([]byte{4, 3, 2, 1})))
	})
	add(g, "base58check dec", func() string {
		t := owkeychain.Base58checkEncode(fixed(40, 1), []byte{1, 2, 3, 4})
		return res(owkeychain.Base58checkDecode(t, spy.A([]byte{1, 2, 3, 4})))
	})
}
