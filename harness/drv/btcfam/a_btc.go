//go:build go1.21

// Code generated by gen.py; DO NOT EDIT.
package btcfam

import (
	p "github.com/blocktree/go-owcdrivers/btcTransaction"
	"github.com/blocktree/go-owcdrivers/zzverif/spy"
)

func init() {
	net := func(n Net) p.AddressPrefix {
		return p.AddressPrefix{P2PKHPrefix: n.P2PKH, P2WPKHPrefix: n.P2WPKH, P2SHPrefix: n.P2SH, Bech32Prefix: n.HRP}
	}
	unet := func(name string, a p.AddressPrefix) Net {
		return Net{Name: name, P2PKH: a.P2PKHPrefix, P2WPKH: a.P2WPKHPrefix, P2SH: a.P2SHPrefix, HRP: a.Bech32Prefix}
	}
	_ = unet
	ins := func(v []Vin) []p.Vin {
		if v == nil {
			return nil
		}
		o := []p.Vin{}
		for _, x := range v {
			o = append(o, p.Vin{TxID: x.TxID, Vout: x.Vout})
		}
		return o
	}
	outs := func(v []Vout) []p.Vout {
		if v == nil {
			return nil
		}
		o := []p.Vout{}
		for _, x := range v {
			o = append(o, p.Vout{Address: x.Address, Amount: x.Amount})
		}
		return o
	}
	unl := func(v []Unlock) []p.TxUnlock {
		if v == nil {
			return nil
		}
		o := []p.TxUnlock{}
		for _, x := range v {
			o = append(o, p.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amount, SigType: x.SigType})
		}
		return o
	}
	toH := func(h []Hash) []p.TxHash {
		if h == nil {
			return nil
		}
		o := []p.TxHash{}
		for _, x := range h {
			t := p.TxHash{Hash: x.Hash, NRequired: x.N}
			if !x.NoNormal {
				t.Normal = &p.NormalTx{Address: x.Addr, SigType: x.SigType, SigPub: p.SignaturePubkey{Signature: x.Sig, Pubkey: x.Pub}}
			}
			for _, m := range x.Multi {
				t.Multi = append(t.Multi, p.MultiTx{Pubkey: m.Pubkey, SigType: m.SigType, SigPub: p.SignaturePubkey{Signature: m.Sig, Pubkey: m.Pub}})
			}
			o = append(o, t)
		}
		return o
	}
	fromH := func(h []p.TxHash) []Hash {
		var o []Hash
		for _, x := range h {
			t := Hash{Hash: x.GetTxHashHex(), N: x.NRequired}
			if x.Normal == nil {
				t.NoNormal = true
			} else {
				t.Addr, t.SigType, t.Sig, t.Pub = x.GetNormalTxAddress(), x.Normal.SigType, x.Normal.SigPub.Signature, x.Normal.SigPub.Pubkey
			}
			for _, m := range x.Multi {
				t.Multi = append(t.Multi, MSig{m.Pubkey, m.SigType, m.SigPub.Signature, m.SigPub.Pubkey})
			}
			o = append(o, t)
		}
		return o
	}
	_ = net
	All = append(All, &Adapter{
		Name: "btc", Version: 2, ForkID: false, Segwit: true, Bech32: true, Zen: false, Cxc: false, NeedsOmni: false, HasOmni: false, SegParam: true, SigType: p.SigHashAll,
		Nets: []Net{unet("BTCMainnetAddressPrefix", p.BTCMainnetAddressPrefix), unet("BTCTestnetAddressPrefix", p.BTCTestnetAddressPrefix), unet("LTCMainnetAddressPrefix", p.LTCMainnetAddressPrefix), unet("LTCTestnetAddressPrefix", p.LTCTestnetAddressPrefix), unet("ZECMainnetAddressPrefix", p.ZECMainnetAddressPrefix), unet("ZECTestnetAddressPrefix", p.ZECTestnetAddressPrefix)},
		Create: func(r *Req) (string, error) {
			return p.CreateEmptyRawTransaction(spy.A(ins(r.Ins)), spy.A(outs(r.Outs)), r.Lock, r.Repl, spy.A(net(r.Net)))
		},
		Hashes: func(tx string, u []Unlock, seg bool, n Net) ([]Hash, error) {
			h, err := p.CreateRawTransactionHashForSig(tx, spy.A(unl(u)), seg, spy.A(net(n)))
			return fromH(spy.R(h)), err
		},
		Sign: func(h string, k []byte) ([]byte, []byte, error) {
			s, err := p.SignRawTransactionHash(h, spy.A(k))
			spy.R(s)
			if s == nil {
				return nil, nil, err
			}
			return s.Signature, s.Pubkey, err
		},
		Insert: func(tx string, h []Hash, u []Unlock, seg bool) (string, error) {
			return p.InsertSignatureIntoEmptyTransaction(tx, spy.A(toH(h)), spy.A(unl(u)), seg)
		},
		Verify: func(tx string, u []Unlock, seg bool, n Net) bool {
			return p.VerifyRawTransaction(tx, spy.A(unl(u)), seg, spy.A(net(n)))
		},
		Multi: func(req byte, pubs [][]byte, seg bool, n Net) (string, string, error) {
			return p.CreateMultiSig(req, spy.A(pubs), seg, spy.A(net(n)))
		},
		Decode: func(b []byte, seg bool) (*View, error) {
			t, err := p.DecodeRawTransaction(spy.A(b), seg)
			spy.R(t)
			if t == nil {
				return nil, err
			}
			v := &View{Version: t.Version, LockTime: t.LockTime, NOut: len(t.Vouts), Witness: t.Witness}
			for _, i := range t.Vins {
				v.Ins = append(v.Ins, VinView{i.GetTxID(), i.GetVout(), i.GetUTXOType()})
			}
			return v, err
		},
	})
}
