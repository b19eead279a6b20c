//go:build go1.21

// Code generated by tools; the driver codecs behind one interface.
package main

import (
	"bytes"
	"errors"

	"github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	"github.com/blocktree/go-owcdrivers/bitcoincashTransaction"
	"github.com/blocktree/go-owcdrivers/bitcoinsvTransaction"
	"github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
	"github.com/blocktree/go-owcdrivers/btcTransaction"
	"github.com/blocktree/go-owcdrivers/bytomTransaction"
	"github.com/blocktree/go-owcdrivers/cosmosTransaction"
	"github.com/blocktree/go-owcdrivers/cxcTransaction"
	"github.com/blocktree/go-owcdrivers/elastosTransaction"
	"github.com/blocktree/go-owcdrivers/evaioTransaction"
	"github.com/blocktree/go-owcdrivers/fiiiTransaction"
	"github.com/blocktree/go-owcdrivers/filenetTransaction"
	"github.com/blocktree/go-owcdrivers/hcTransaction"
	"github.com/blocktree/go-owcdrivers/hypercashTransaction"
	"github.com/blocktree/go-owcdrivers/omniTransaction"
	"github.com/blocktree/go-owcdrivers/ontologyTransaction"
	"github.com/blocktree/go-owcdrivers/owkeychain"
	"github.com/blocktree/go-owcdrivers/rippleTransaction"
	"github.com/blocktree/go-owcdrivers/vergeTransaction"
	"github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"
	"github.com/blocktree/go-owcdrivers/vollarTransaction"
	"github.com/blocktree/go-owcdrivers/waykichainTransaction"
	"github.com/blocktree/go-owcdrivers/zencashTransaction"
)

type checkCodec struct {
	Name string
	Chk  string
	Ver  [][]byte
	Enc  func(ver, hash []byte) string
	Dec  func(s string, ver []byte) ([]byte, []byte, error)
}

var errX = errors.New("wrong version")

var checkCodecs = []checkCodec{
	{"bitcoincashTransaction", "doubleSHA256", [][]byte{{0}, {5}, {0x6f}, {0xc4}}, bitcoincashTransaction.EncodeCheck, func(s string, _ []byte) ([]byte, []byte, error) { return bitcoincashTransaction.DecodeCheck(s) }},
	{"bitcoinsvTransaction", "doubleSHA256", [][]byte{{0}, {5}, {0x6f}, {0xc4}}, bitcoinsvTransaction.EncodeCheck, func(s string, _ []byte) ([]byte, []byte, error) { return bitcoinsvTransaction.DecodeCheck(s) }},
	{"btcTransaction", "doubleSHA256", [][]byte{{0}, {5}, {0x30}, {0x32}, {0x6f}, {0xc4}, {0x1c, 0xb8}, {0x1c, 0xbd}, {0xff}}, btcTransaction.EncodeCheck, func(s string, _ []byte) ([]byte, []byte, error) { return btcTransaction.DecodeCheck(s) }},
	{"cxcTransaction", "doubleSHA256", [][]byte{{0}, {5}, {0x1c}}, cxcTransaction.EncodeCheck, func(s string, _ []byte) ([]byte, []byte, error) { return cxcTransaction.DecodeCheck(s) }},
	{"elastosTransaction", "doubleSHA256", [][]byte{{0x21}, {0}}, elastosTransaction.EncodeCheck, func(s string, _ []byte) ([]byte, []byte, error) { return elastosTransaction.DecodeCheck(s) }},
	{"hcTransaction", "doubleSHA256", [][]byte{{0}, {9, 0x7f}, {5}}, hcTransaction.EncodeCheck, func(s string, _ []byte) ([]byte, []byte, error) { return hcTransaction.DecodeCheck(s) }},
	{"hypercashTransaction", "doubleBlake256", [][]byte{{9, 0x7f}, {9, 0x5a}}, hypercashTransaction.EncodeCheck, func(s string, _ []byte) ([]byte, []byte, error) { return hypercashTransaction.DecodeCheck(s) }},
	{"omniTransaction", "doubleSHA256", [][]byte{{0}, {5}, {0x6f}}, omniTransaction.EncodeCheck, func(s string, _ []byte) ([]byte, []byte, error) { return omniTransaction.DecodeCheck(s) }},
	{"vollarTransaction", "doubleSHA256", [][]byte{{0x46}, {0}, {0x1c, 0xb8}}, vollarTransaction.EncodeCheck, func(s string, _ []byte) ([]byte, []byte, error) { return vollarTransaction.DecodeCheck(s) }},
	{"waykichainTransaction", "doubleSHA256", [][]byte{{0x49}, {0x87}, {0}}, waykichainTransaction.EncodeCheck, func(s string, _ []byte) ([]byte, []byte, error) { return waykichainTransaction.DecodeCheck(s) }},
	{"zencashTransaction", "doubleSHA256", [][]byte{{0x20, 0x89}, {0x20, 0x96}, {0x20, 0x98}, {0}}, zencashTransaction.EncodeCheck, func(s string, _ []byte) ([]byte, []byte, error) { return zencashTransaction.DecodeCheck(s) }},
	{"aliencoinTransaction", "doubleSHA256", [][]byte{{0}, {5}, {0x17}, {0x1e}, {0xff}}, func(v, h []byte) string { return aliencoinTransaction.EncodeCheck(v[0], h) }, func(s string, _ []byte) ([]byte, []byte, error) {
		v, h, e := aliencoinTransaction.DecodeCheck(s)
		return []byte{v}, h, e
	}},
	{"btcLikeTxDriver", "doubleSHA256", [][]byte{{0}, {5}, {0x17}, {0x1e}, {0xff}}, func(v, h []byte) string { return btcLikeTxDriver.EncodeCheck(v[0], h) }, func(s string, _ []byte) ([]byte, []byte, error) {
		v, h, e := btcLikeTxDriver.DecodeCheck(s)
		return []byte{v}, h, e
	}},
	{"ontologyTransaction", "doubleSHA256", [][]byte{{0}, {5}, {0x17}, {0x1e}, {0xff}}, func(v, h []byte) string { return ontologyTransaction.EncodeCheck(v[0], h) }, func(s string, _ []byte) ([]byte, []byte, error) {
		v, h, e := ontologyTransaction.DecodeCheck(s)
		return []byte{v}, h, e
	}},
	{"vergeTransaction", "doubleSHA256", [][]byte{{0}, {5}, {0x17}, {0x1e}, {0xff}}, func(v, h []byte) string { return vergeTransaction.EncodeCheck(v[0], h) }, func(s string, _ []byte) ([]byte, []byte, error) {
		v, h, e := vergeTransaction.DecodeCheck(s)
		return []byte{v}, h, e
	}},
	{"virtualeconomyTransaction", "blake2b_and_keccak256_first_twenty", [][]byte{{5, 0x4d}, {5, 0x54}}, func(v, h []byte) string {
		return virtualeconomyTransaction.EncodeCheck(v[0], append([]byte{v[1]}, h...))
	}, func(s string, _ []byte) ([]byte, []byte, error) {
		r, e := virtualeconomyTransaction.DecodeCheck(s)
		if e != nil {
			return nil, nil, e
		}
		return r[:2], r[2:22], nil
	}},
	{"fiiiTransaction", "doubleSHA256", [][]byte{{0x40, 0xe7, 0xe9, 0xaa}, {0x40, 0xe7, 0xe9}, {0}}, fiiiTransaction.EncodeCheck, func(s string, v []byte) ([]byte, []byte, error) {
		r, e := fiiiTransaction.DecodeCheck(s, v)
		return v, r, e
	}},
	{"owkeychain", "doubleSHA256", [][]byte{{0x07, 0xa8, 0xe3, 0x54}, {0x00}}, func(v, h []byte) string { return owkeychain.Base58checkEncode(h, append([]byte{}, v...)) }, func(s string, v []byte) ([]byte, []byte, error) {
		r, e := owkeychain.Base58checkDecode(s, v)
		return v, r, e
	}},
	{"elastosTransaction.GetProgramHash", "doubleSHA256", [][]byte{{0x21}}, nil, func(s string, _ []byte) ([]byte, []byte, error) {
		r, e := elastosTransaction.GetProgramHashFromAddress(s)
		if e != nil {
			return nil, nil, e
		}
		return r[:1], r[1:], nil
	}},
	{"waykichainTransaction.GetProgramHash", "doubleSHA256", [][]byte{{0x49}}, nil, func(s string, _ []byte) ([]byte, []byte, error) {
		r, e := waykichainTransaction.GetProgramHashFromAddress(s)
		return []byte{0x49}, r, e
	}},
	{"rippleTransaction.GetProgramHash", "doubleSHA256", [][]byte{{0}}, nil, func(s string, _ []byte) ([]byte, []byte, error) {
		r, e := rippleTransaction.GetProgramHashFromAddress(s)
		return []byte{0}, r, e
	}},
}

type rawCodec struct {
	Name string
	Xrp  bool
	Enc  func([]byte) string
	Dec  func(string) ([]byte, error)
}

var rawCodecs = []rawCodec{
	{"bitcoincashTransaction", false, func(b []byte) string { return bitcoincashTransaction.Encode(b, bitcoincashTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) {
		return bitcoincashTransaction.Decode(s, bitcoincashTransaction.BitcoinAlphabet)
	}},
	{"bitcoinsvTransaction", false, func(b []byte) string { return bitcoinsvTransaction.Encode(b, bitcoinsvTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) {
		return bitcoinsvTransaction.Decode(s, bitcoinsvTransaction.BitcoinAlphabet)
	}},
	{"btcTransaction", false, func(b []byte) string { return btcTransaction.Encode(b, btcTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) { return btcTransaction.Decode(s, btcTransaction.BitcoinAlphabet) }},
	{"cxcTransaction", false, func(b []byte) string { return cxcTransaction.Encode(b, cxcTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) { return cxcTransaction.Decode(s, cxcTransaction.BitcoinAlphabet) }},
	{"elastosTransaction", false, func(b []byte) string { return elastosTransaction.Encode(b, elastosTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) {
		return elastosTransaction.Decode(s, elastosTransaction.BitcoinAlphabet)
	}},
	{"hcTransaction", false, func(b []byte) string { return hcTransaction.Encode(b, hcTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) { return hcTransaction.Decode(s, hcTransaction.BitcoinAlphabet) }},
	{"hypercashTransaction", false, func(b []byte) string { return hypercashTransaction.Encode(b, hypercashTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) {
		return hypercashTransaction.Decode(s, hypercashTransaction.BitcoinAlphabet)
	}},
	{"omniTransaction", false, func(b []byte) string { return omniTransaction.Encode(b, omniTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) { return omniTransaction.Decode(s, omniTransaction.BitcoinAlphabet) }},
	{"vollarTransaction", false, func(b []byte) string { return vollarTransaction.Encode(b, vollarTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) { return vollarTransaction.Decode(s, vollarTransaction.BitcoinAlphabet) }},
	{"waykichainTransaction", false, func(b []byte) string { return waykichainTransaction.Encode(b, waykichainTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) {
		return waykichainTransaction.Decode(s, waykichainTransaction.BitcoinAlphabet)
	}},
	{"zencashTransaction", false, func(b []byte) string { return zencashTransaction.Encode(b, zencashTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) {
		return zencashTransaction.Decode(s, zencashTransaction.BitcoinAlphabet)
	}},
	{"aliencoinTransaction", false, func(b []byte) string { return aliencoinTransaction.Encode(b, aliencoinTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) {
		return aliencoinTransaction.Decode(s, aliencoinTransaction.BitcoinAlphabet)
	}},
	{"btcLikeTxDriver", false, func(b []byte) string { return btcLikeTxDriver.Encode(b, btcLikeTxDriver.BitcoinAlphabet) }, func(s string) ([]byte, error) { return btcLikeTxDriver.Decode(s, btcLikeTxDriver.BitcoinAlphabet) }},
	{"ontologyTransaction", false, func(b []byte) string { return ontologyTransaction.Encode(b, ontologyTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) {
		return ontologyTransaction.Decode(s, ontologyTransaction.BitcoinAlphabet)
	}},
	{"vergeTransaction", false, func(b []byte) string { return vergeTransaction.Encode(b, vergeTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) { return vergeTransaction.Decode(s, vergeTransaction.BitcoinAlphabet) }},
	{"virtualeconomyTransaction", false, func(b []byte) string {
		return virtualeconomyTransaction.Encode(b, virtualeconomyTransaction.BitcoinAlphabet)
	}, func(s string) ([]byte, error) {
		return virtualeconomyTransaction.Decode(s, virtualeconomyTransaction.BitcoinAlphabet)
	}},
	{"fiiiTransaction", false, func(b []byte) string { return fiiiTransaction.Encode(b, fiiiTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) { return fiiiTransaction.Decode(s, fiiiTransaction.BitcoinAlphabet) }},
	{"filenetTransaction", false, func(b []byte) string { return filenetTransaction.Encode(b, filenetTransaction.BitcoinAlphabet) }, func(s string) ([]byte, error) {
		return filenetTransaction.Decode(s, filenetTransaction.BitcoinAlphabet)
	}},
	{"owkeychain", false, func(b []byte) string { return owkeychain.Encode(b, owkeychain.BitcoinAlphabet) }, func(s string) ([]byte, error) { return owkeychain.Decode(s, owkeychain.BitcoinAlphabet) }},
	{"rippleTransaction", true, func(b []byte) string { return rippleTransaction.Encode(b, rippleTransaction.RippleAlphabet) }, func(s string) ([]byte, error) { return rippleTransaction.Decode(s, rippleTransaction.RippleAlphabet) }},
}

type b32Codec struct {
	Name      string
	Versioned bool
	Enc       func(hrp string, b []byte) string
	Dec       func(string) ([]byte, error)
}

var b32Codecs = []b32Codec{
	{"btcTransaction", true, func(h string, b []byte) string {
		return btcTransaction.Bech32Encode(h, btcTransaction.BTCBech32Alphabet, b)
	}, btcTransaction.Bech32Decode},
	{"omniTransaction", true, func(h string, b []byte) string {
		return omniTransaction.Bech32Encode(h, omniTransaction.BTCBech32Alphabet, b)
	}, omniTransaction.Bech32Decode},
	{"hcTransaction", true, func(h string, b []byte) string {
		return hcTransaction.Bech32Encode(h, hcTransaction.BTCBech32Alphabet, b)
	}, hcTransaction.Bech32Decode},
	{"cxcTransaction", true, func(h string, b []byte) string {
		return cxcTransaction.Bech32Encode(h, cxcTransaction.BTCBech32Alphabet, b)
	}, cxcTransaction.Bech32Decode},
	{"zencashTransaction", true, func(h string, b []byte) string {
		return zencashTransaction.Bech32Encode(h, zencashTransaction.BTCBech32Alphabet, b)
	}, zencashTransaction.Bech32Decode},
	{"btcLikeTxDriver", true, func(h string, b []byte) string {
		return btcLikeTxDriver.Bech32Encode(h, btcLikeTxDriver.BTCBech32Alphabet, b)
	}, btcLikeTxDriver.Bech32Decode},
	{"cosmosTransaction", false, func(h string, b []byte) string {
		return cosmosTransaction.Bech32Encode(h, cosmosTransaction.ATOMBech32Alphabet, b)
	}, cosmosTransaction.Bech32Decode},
	{"evaioTransaction", false, func(h string, b []byte) string {
		return evaioTransaction.Bech32Encode(h, evaioTransaction.ATOMBech32Alphabet, b)
	}, evaioTransaction.Bech32Decode},
}

var _ = bytes.Equal
var _ = bytomTransaction.Bech32Decode
