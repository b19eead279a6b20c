#!/usr/bin/env python3
# Writes the adapters (one per driver package) from one template.
import os
here = os.path.dirname(os.path.abspath(__file__))
T = '''//go:build go1.21

// Code generated by gen.py; DO NOT EDIT.
package btcfam

import (
	p "github.com/blocktree/go-owcdrivers/%(pkg)s"
	"github.com/blocktree/go-owcdrivers/zzverif/spy"
)

func init() {
	net := func(n Net) p.AddressPrefix { return p.AddressPrefix{P2PKHPrefix: n.P2PKH, P2WPKHPrefix: n.P2WPKH, %(p2sh)sBech32Prefix: n.HRP} }
	unet := func(name string, a p.AddressPrefix) Net { return Net{Name: name, P2PKH: a.P2PKHPrefix, P2WPKH: a.P2WPKHPrefix, %(up2sh)sHRP: a.Bech32Prefix} }
	_ = unet
	ins := func(v []Vin) []p.Vin {
		if v == nil {
			return nil
		}
		o := []p.Vin{}
		for _, x := range v {
			o = append(o, p.Vin{TxID: x.TxID, Vout: x.Vout})
		}
		return o
	}
	outs := func(v []Vout) []p.Vout {
		if v == nil {
			return nil
		}
		o := []p.Vout{}
		for _, x := range v {
			o = append(o, p.Vout{Address: x.Address, Amount: x.Amount})
		}
		return o
	}
	unl := func(v []Unlock) []p.TxUnlock {
		if v == nil {
			return nil
		}
		o := []p.TxUnlock{}
		for _, x := range v {
			o = append(o, p.TxUnlock{LockScript: x.Lock, RedeemScript: x.Redeem, Amount: x.Amount, SigType: x.SigType})
		}
		return o
	}
	toH := func(h []Hash) []p.TxHash {
		if h == nil {
			return nil
		}
		o := []p.TxHash{}
		for _, x := range h {
			t := p.TxHash{Hash: x.Hash, NRequired: x.N}
			if !x.NoNormal {
				t.Normal = &p.NormalTx{Address: x.Addr, SigType: x.SigType, SigPub: p.SignaturePubkey{Signature: x.Sig, Pubkey: x.Pub}}
			}
			for _, m := range x.Multi {
				t.Multi = append(t.Multi, p.MultiTx{Pubkey: m.Pubkey, SigType: m.SigType, SigPub: p.SignaturePubkey{Signature: m.Sig, Pubkey: m.Pub}})
			}
			o = append(o, t)
		}
		return o
	}
	fromH := func(h []p.TxHash) []Hash {
		var o []Hash
		for _, x := range h {
			t := Hash{Hash: x.GetTxHashHex(), N: x.NRequired}
			if x.Normal == nil {
				t.NoNormal = true
			} else {
				t.Addr, t.SigType, t.Sig, t.Pub = x.GetNormalTxAddress(), x.Normal.SigType, x.Normal.SigPub.Signature, x.Normal.SigPub.Pubkey
			}
			for _, m := range x.Multi {
				t.Multi = append(t.Multi, MSig{m.Pubkey, m.SigType, m.SigPub.Signature, m.SigPub.Pubkey})
			}
			o = append(o, t)
		}
		return o
	}
	_ = net
	All = append(All, &Adapter{
		Name: "%(name)s", Version: %(ver)s, ForkID: %(fork)s, Segwit: %(seg)s, Bech32: %(b32)s, Zen: %(zen)s, Cxc: %(cxc)s, NeedsOmni: %(needomni)s, HasOmni: %(hasomni)s, SegParam: %(segparam)s, SigType: p.SigHashAll,
		Nets: []Net{%(nets)s},
		Create: func(r *Req) (string, error) {
%(create)s
		},
		Hashes: func(tx string, u []Unlock, seg bool, n Net) ([]Hash, error) {
			h, err := p.CreateRawTransactionHashForSig(tx, spy.A(unl(u)), %(segarg)sspy.A(net(n)))
			return fromH(spy.R(h)), err
		},
		Sign: func(h string, k []byte) ([]byte, []byte, error) {
			s, err := p.SignRawTransactionHash(h, spy.A(k))
			spy.R(s)
			if s == nil {
				return nil, nil, err
			}
			return s.Signature, s.Pubkey, err
		},
		Insert: func(tx string, h []Hash, u []Unlock, seg bool) (string, error) {
			return p.InsertSignatureIntoEmptyTransaction(tx, spy.A(toH(h)), spy.A(unl(u))%(segarg2)s)
		},
		Verify: func(tx string, u []Unlock, seg bool, n Net) bool {
			return p.VerifyRawTransaction(tx, spy.A(unl(u)), %(segarg)sspy.A(net(n)))
		},
		Multi: func(req byte, pubs [][]byte, seg bool, n Net) (string, string, error) {
			return p.CreateMultiSig(req, spy.A(pubs), %(segarg)sspy.A(net(n)))
		},
		Decode: func(b []byte, seg bool) (*View, error) {
			t, err := p.DecodeRawTransaction(spy.A(b), seg)
			spy.R(t)
			if t == nil {
				return nil, err
			}
			v := &View{Version: t.Version, LockTime: t.LockTime, NOut: len(t.Vouts), Witness: t.Witness}
			for _, i := range t.Vins {
				v.Ins = append(v.Ins, VinView{i.GetTxID(), i.GetVout(), i.GetUTXOType()})
			}
			return v, err
		},
	})
}
'''
OMNI = 'p.OmniStruct{TxType: r.Omni.TxType, PropertyId: r.Omni.PropertyId, Amount: r.Omni.Amount, Ecosystem: r.Omni.Ecosystem, Memo: r.Omni.Memo, Address: r.Omni.Address}'
STD = '\t\t\treturn p.CreateEmptyRawTransaction(spy.A(ins(r.Ins)), spy.A(outs(r.Outs)), r.Lock, r.Repl, spy.A(net(r.Net)))'
def w(name, pkg, ver, nets, fork=False, seg=True, b32=True, zen=False, cxc=False, needomni=False, hasomni=False, segparam=True, p2sh=True, create=STD):
    b = lambda v: 'true' if v else 'false'
    d = dict(name=name, pkg=pkg, ver=ver, fork=b(fork), seg=b(seg), b32=b(b32), zen=b(zen), cxc=b(cxc), needomni=b(needomni), hasomni=b(hasomni), segparam=b(segparam), create=create,
             p2sh='P2SHPrefix: n.P2SH, ' if p2sh else '', up2sh='P2SH: a.P2SHPrefix, ' if p2sh else '', segarg='seg, ' if segparam else '', segarg2=', seg' if segparam else '',
             nets=', '.join('unet("%s", p.%s)' % (n, n) for n in nets))
    open(os.path.join(here, 'a_%s.go' % name), 'w').write(T % d)
BTC = ["BTCMainnetAddressPrefix", "BTCTestnetAddressPrefix", "LTCMainnetAddressPrefix", "LTCTestnetAddressPrefix", "ZECMainnetAddressPrefix", "ZECTestnetAddressPrefix"]
BCH = ["BCHMainnetAddressPrefix", "BCHTestnetAddressPrefix"]
BCHC = '\t\t\tif r.Omni != nil {\n\t\t\t\treturn p.CreateEmptyOmniRawTransaction(spy.A(ins(r.Ins)), spy.A(outs(r.Outs)), %s, r.Lock, r.Repl, spy.A(net(r.Net)))\n\t\t\t}\n' % OMNI + STD
w("btc", "btcTransaction", 2, BTC)
w("hc", "hcTransaction", 2, ["HCMainnetAddressPrefix", "HCTestnetAddressPrefix"], p2sh=False)
w("omni", "omniTransaction", 2, BTC[:2], seg=False, needomni=True, hasomni=True, segparam=False, p2sh=False,
  create='\t\t\treturn p.CreateEmptyRawTransaction(spy.A(ins(r.Ins)), spy.A(outs(r.Outs)), %s, r.Lock, r.Repl, spy.A(net(r.Net)))' % OMNI)
w("cxc", "cxcTransaction", 1, BTC, p2sh=False, cxc=True,
  create='''			if r.Assets != nil {
				var to []p.AssetTransfer
				for _, a := range r.Assets {
					to = append(to, p.AssetTransfer{FirstSellTxID: a.TxID, Address: a.Address, Amount: a.Amount})
				}
				return p.CreateEmptyAssetRawTransaction(spy.A(ins(r.Ins)), to, spy.A(outs(r.Outs))[0], r.Lock, r.Repl, spy.A(net(r.Net)))
			}
''' + STD)
w("zen", "zencashTransaction", 1, ["ZENMainnetAddressPrefix"], p2sh=False, seg=False, zen=True,
  create='\t\t\treturn p.CreateEmptyRawTransaction(spy.A(ins(r.Ins)), spy.A(outs(r.Outs)), r.Lock, r.Repl, spy.A(net(r.Net)), r.BlockHash, r.BlockHeight)')
w("bch", "bitcoincashTransaction", 1, BCH, fork=True, seg=False, b32=False, hasomni=True, create=BCHC)
w("bsv", "bitcoinsvTransaction", 1, BCH, fork=True, seg=False, b32=False, hasomni=True, create=BCHC)
