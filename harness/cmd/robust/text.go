//go:build go1.21

package main

import (
	"strings"

	"github.com/blocktree/go-owcdrivers/addressEncoder"
	alien "github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	bch "github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
	bsv "github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
	like "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
	btc "github.com/blocktree/go-owcdrivers/btcTransaction"
	bytom "github.com/blocktree/go-owcdrivers/bytomTransaction"
	cosmos "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	cxc "github.com/blocktree/go-owcdrivers/cxcTransaction"
	elastos "github.com/blocktree/go-owcdrivers/elastosTransaction"
	eva "github.com/blocktree/go-owcdrivers/evaioTransaction"
	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	filenet "github.com/blocktree/go-owcdrivers/filenetTransaction"
	hc "github.com/blocktree/go-owcdrivers/hcTransaction"
	hyper "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	mate "github.com/blocktree/go-owcdrivers/mateverseTransaction"
	omni "github.com/blocktree/go-owcdrivers/omniTransaction"
	ont "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	"github.com/blocktree/go-owcdrivers/owkeychain"
	dot "github.com/blocktree/go-owcdrivers/polkadotTransaction"
	ripple "github.com/blocktree/go-owcdrivers/rippleTransaction"
	verge "github.com/blocktree/go-owcdrivers/vergeTransaction"
	vsys "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	vollar "github.com/blocktree/go-owcdrivers/vollarTransaction"
	wayki "github.com/blocktree/go-owcdrivers/waykichainTransaction"
	zen "github.com/blocktree/go-owcdrivers/zencashTransaction"
	"github.com/blocktree/go-owcdrivers/zzverif/drv/chain"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

// textTargets: address, key and transaction decoders that take text directly.
func textTargets() []*target {
	var out []*target
	add := func(drv, name string, f func(a []string) error, base ...string) {
		out = append(out, &target{drv, name, base, func(a []string) bool { return f(a) == nil }})
	}
	h := ref.Hash160([]byte("dest"))
	a58 := b58([]byte{0}, h)
	a582 := b58([]byte{0x1c, 0xb8}, h)
	b32 := segAddr("bc", h)
	e := func(_ interface{}, err error) error { return err }
	e2 := func(_, _ interface{}, err error) error { return err }
	check2 := map[string]func(string) ([]byte, []byte, error){"bch": bch.DecodeCheck, "bsv": bsv.DecodeCheck, "btc": btc.DecodeCheck, "cxc": cxc.DecodeCheck, "elastos": elastos.DecodeCheck, "hc": hc.DecodeCheck, "hypercash": hyper.DecodeCheck, "omni": omni.DecodeCheck, "vollar": vollar.DecodeCheck, "wayki": wayki.DecodeCheck, "zen": zen.DecodeCheck}
	for _, n := range []string{"bch", "bsv", "btc", "cxc", "elastos", "hc", "hypercash", "omni", "vollar", "wayki", "zen"} {
		f := check2[n]
		for _, b := range []string{a58, a582} {
			add(n, "address", func(a []string) error { _, _, err := f(a[0]); return err }, b)
		}
	}
	check1 := map[string]func(string) (byte, []byte, error){"alien": alien.DecodeCheck, "like": like.DecodeCheck, "ontology": ont.DecodeCheck, "verge": verge.DecodeCheck}
	for _, n := range []string{"alien", "like", "ontology", "verge"} {
		f := check1[n]
		add(n, "address", func(a []string) error { _, _, err := f(a[0]); return err }, a58)
	}
	add("fiii", "address", func(a []string) error { return e(fiii.DecodeCheck(a[0], []byte{0x40, 0xe7, 0xe9, 0xaa})) }, b58([]byte{0x40, 0xe7, 0xe9, 0xaa}, h))
	add("fiii", "address-short-prefix", func(a []string) error { return e(fiii.DecodeCheck(a[0], nil)) }, a58)
	add("vsys", "address", func(a []string) error { return e(vsys.DecodeCheck(a[0])) }, b58([]byte{5, 'M'}, h))
	bech := map[string]func(string) ([]byte, error){"btc": btc.Bech32Decode, "like": like.Bech32Decode, "cosmos": cosmos.Bech32Decode, "cxc": cxc.Bech32Decode, "eva": eva.Bech32Decode, "hc": hc.Bech32Decode, "omni": omni.Bech32Decode, "zen": zen.Bech32Decode}
	for _, n := range []string{"btc", "like", "cosmos", "cxc", "eva", "hc", "omni", "zen"} {
		f := bech[n]
		add(n, "bech32", func(a []string) error { _, err := f(a[0]); return err }, b32)
		add(n, "bech32-long", func(a []string) error { _, err := f(a[0]); return err }, segAddr("bc", ref.Sha256(h)))
	}
	add("bytom", "bech32", func(a []string) error { _, _, err := bytom.Bech32Decode(a[0]); return err }, segAddr("bm", h))
	dec := map[string]func(string) ([]byte, error){
		"alien": func(s string) ([]byte, error) { return alien.Decode(s, alien.BitcoinAlphabet) }, "bch": func(s string) ([]byte, error) { return bch.Decode(s, bch.BitcoinAlphabet) },
		"filenet": func(s string) ([]byte, error) { return filenet.Decode(s, filenet.BitcoinAlphabet) }, "owkeychain": func(s string) ([]byte, error) { return owkeychain.Decode(s, owkeychain.BitcoinAlphabet) },
		"ripple": func(s string) ([]byte, error) {
			return ripple.Decode(s, ripple.NewAlphabet("rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"))
		}, "vsys": func(s string) ([]byte, error) { return vsys.Decode(s, vsys.BitcoinAlphabet) },
		"btc": func(s string) ([]byte, error) { return btc.Decode(s, btc.BitcoinAlphabet) }, "elastos": func(s string) ([]byte, error) { return elastos.Decode(s, elastos.BitcoinAlphabet) }, "wayki": func(s string) ([]byte, error) { return wayki.Decode(s, wayki.BitcoinAlphabet) }}
	for _, n := range []string{"alien", "bch", "btc", "elastos", "filenet", "owkeychain", "ripple", "vsys", "wayki"} {
		f := dec[n]
		add(n, "base58", func(a []string) error { _, err := f(a[0]); return err }, a58)
	}
	// unsigned transactions read back
	empty := func(d string) string {
		for _, x := range chain.Drvs {
			if x.Name == d {
				t, _, _ := x.Gen(script{"ins": 1, "outs": 1}).Create()
				return t
			}
		}
		return strings.Repeat("00", 60)
	}
	add("alien", "decode", func(a []string) error { return e2(alien.DecodeTxStructRaw(a[0])) }, empty("alien"))
	add("verge", "decode", func(a []string) error { return e2(verge.DecodeTxStructRaw(a[0])) }, empty("verge"))
	add("vollar", "decode", func(a []string) error { return e2(vollar.DecodeTxStructRaw(a[0])) }, empty("vollar"))
	add("mateverse", "inputs", func(a []string) error { return e(mate.GetInputsFromEmptyRawTransaction(a[0])) }, empty("mateverse"))
	add("mateverse", "digests", func(a []string) error {
		l, err := mate.GetInputsFromEmptyRawTransaction(empty("mateverse"))
		if err != nil {
			return err
		}
		for _, i := range l {
			i.SetLockScript(a[1])
		}
		return mate.GetSigHash(a[0], &l)
	}, empty("mateverse"), "76a914"+hx(h)+"88ac")
	add("mateverse", "text-combine", func(a []string) error {
		l, err := mate.GetInputsFromEmptyRawTransaction(empty("mateverse"))
		if err != nil {
			return err
		}
		for _, i := range l {
			i.SetLockScript(a[1])
			i.SetSignature(a[2])
			i.SetPubKey(a[3])
		}
		mate.VerifyAndCombineTransaction(a[0], l)
		return nil
	}, empty("mateverse"), "76a914"+hx(h)+"88ac", strings.Repeat("11", 64), hx(ordinary[0].pub))
	add("polkadot", "json", func(a []string) error { return e(dot.NewTxStructFromJSON(a[0])) }, empty("polkadot"))
	add("polkadot", "text-combine", func(a []string) error { dot.VerifyAndCombineTransaction(a[2], a[0], a[1]); return nil }, empty("polkadot"), strings.Repeat("11", 64), "0500")
	// extended keys
	root, err := owkeychain.InitRootKeyFromSeed([]byte(strings.Repeat("seed", 8)), 0xECC00000)
	if err == nil {
		add("owkeychain", "private-key", func(a []string) error { return e(owkeychain.OWDecode(a[0])) }, root.OWEncode())
		if p := root.GetPublicKey(); p != nil {
			add("owkeychain", "public-key", func(a []string) error {
				k, err := owkeychain.OWDecode(a[0])
				if err != nil {
					return err
				}
				_, err = k.DerivedPublicKeyFromPath(a[1])
				return err
			}, p.OWEncode(), "/1/0")
			share := owkeychain.MultiSigShare{}
			_ = share
		}
		add("owkeychain", "path", func(a []string) error {
			return e(owkeychain.DerivedPrivateKeyWithPath(bytesOf(a[0]), a[1], 0xECC00000))
		}, strings.Repeat("07", 32), "m/44'/88'/0'/1/2")
	}
	add("owkeychain", "share", func(a []string) error { return e(owkeychain.ChainDecode(a[0])) }, "owchain"+a58)
	add("owkeychain", "share-data", func(a []string) error { return e(owkeychain.GetMultiSigShareData(a[0])) }, "owpub"+a58)
	add("owkeychain", "base58check", func(a []string) error { return e(owkeychain.Base58checkDecode(a[0], []byte{0, 1})) }, a58)
	for _, s := range []string{"BTC", "ETH", "BCH", "XMR", "EOS", "TRX", "LTC", "ZEC", "XTZ", "NEO", "ATOM", "BTM", "AE", "BSV"} {
		s := s
		add("addressEncoder", "check-"+s, func(a []string) error { _, err := addressEncoder.AddressCheck(a[0], s); return err }, a58)
	}
	return out
}
