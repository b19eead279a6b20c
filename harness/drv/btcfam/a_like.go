//go:build go1.21

package btcfam

import (
	"encoding/hex"

	p "github.com/blocktree/go-owcdrivers/btcLikeTxDriver"
	"github.com/blocktree/go-owcdrivers/zzverif/spy"
)

func init() {
	ins := func(v []Vin) []p.Vin {
		if v == nil {
			return nil
		}
		o := []p.Vin{}
		for _, x := range v {
			o = append(o, p.Vin{TxID: x.TxID, Vout: x.Vout})
		}
		return o
	}
	outs := func(v []Vout) []p.Vout {
		if v == nil {
			return nil
		}
		o := []p.Vout{}
		for _, x := range v {
			o = append(o, p.Vout{Address: x.Address, Amount: x.Amount})
		}
		return o
	}
	unl := func(v []Unlock) []p.TxUnlock {
		if v == nil {
			return nil
		}
		o := []p.TxUnlock{}
		for _, x := range v {
			o = append(o, p.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amount})
		}
		return o
	}
	All = append(All, &Adapter{
		Name: "like", Version: 2, Segwit: true, Bech32: true, SegParam: false, SegAlways: true, NoNames: true, SigType: p.SigHashAll,
		Nets: []Net{{Name: "testnet", P2PKH: []byte{0x6f}, P2WPKH: []byte{0xc4}, HRP: "tb"}},
		Create: func(r *Req) (string, error) {
			return p.CreateEmptyRawTransaction(spy.A(ins(r.Ins)), spy.A(outs(r.Outs)), r.Lock, r.Repl)
		},
		Hashes: func(tx string, u []Unlock, seg bool, n Net) ([]Hash, error) {
			hs, err := p.CreateRawTransactionHashForSig(tx, spy.A(unl(u)))
			var o []Hash
			for i, h := range hs {
				x := Hash{Hash: h, SigType: 1}
				// this driver leaves it to its caller to know who signs
				if rd, e := hex.DecodeString(u[i].Redeem); e == nil && len(rd) >= 37 && rd[len(rd)-1] == 0xae {
					x.NoNormal = true
					x.N = rd[0] - 0x50
					for k := 1; k+34 <= len(rd)-2; k += 34 {
						x.Multi = append(x.Multi, MSig{Pubkey: hex.EncodeToString(rd[k+1 : k+34]), SigType: 1})
					}
				}
				o = append(o, x)
			}
			return o, err
		},
		Sign: func(h string, k []byte) ([]byte, []byte, error) {
			s, err := p.SignRawTransactionHash(spy.A([]string{h}), spy.A([]p.TxUnlock{{PrivateKey: k}}))
			spy.R(s)
			if len(s) == 0 {
				return nil, nil, err
			}
			return s[0].Signature, s[0].Pubkey, err
		},
		SignAll: func(tx string, u []Unlock, keys [][]byte) (string, error) {
			x := unl(u)
			for i := range x {
				x[i].PrivateKey = keys[i]
			}
			return p.SignEmptyRawTransaction(tx, spy.A(x))
		},
		Insert: func(tx string, h []Hash, u []Unlock, seg bool) (string, error) {
			var sp []p.SignaturePubkey
			for _, x := range h {
				if x.N == 0 {
					sp = append(sp, p.SignaturePubkey{Signature: x.Sig, Pubkey: x.Pub})
					continue
				}
				for _, m := range x.Multi {
					if m.Sig != nil {
						sp = append(sp, p.SignaturePubkey{Signature: m.Sig, Pubkey: m.Pub})
					}
				}
			}
			return p.InsertSignatureIntoEmptyTransaction(tx, spy.A(sp), spy.A(unl(u)))
		},
		Verify: func(tx string, u []Unlock, seg bool, n Net) bool { return p.VerifyRawTransaction(tx, spy.A(unl(u))) },
		Multi: func(req byte, pubs [][]byte, seg bool, n Net) (string, string, error) {
			return p.CreateMultiSig(req, spy.A(pubs))
		},
		Decode: func(b []byte, seg bool) (*View, error) {
			t, err := p.DecodeRawTransaction(spy.A(b))
			spy.R(t)
			if t == nil {
				return nil, err
			}
			v := &View{Version: t.Version, LockTime: t.LockTime, NOut: len(t.Vouts), Witness: t.Witness != nil}
			for _, i := range t.Vins {
				v.Ins = append(v.Ins, VinView{i.GetTxID(), i.GetVout(), -1})
			}
			return v, err
		},
	})
}
