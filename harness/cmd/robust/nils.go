//go:build go1.21

package main

import (
	"math/big"

	addr "github.com/blocktree/go-owcdrivers/addressEncoder"
	cosmos "github.com/blocktree/go-owcdrivers/cosmosTransaction"
	evaio "github.com/blocktree/go-owcdrivers/evaioTransaction"
	hyper "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	mate "github.com/blocktree/go-owcdrivers/mateverseTransaction"
	moac "github.com/blocktree/go-owcdrivers/moacchainTransaction"
	ont "github.com/blocktree/go-owcdrivers/ontologyTransaction"
	vsys "github.com/blocktree/go-owcdrivers/virtualeconomyTransaction"

	"github.com/blocktree/go-owcdrivers/zzverif/drv/chain"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
)

func emptyOf(name string, sc script) string {
	for _, d := range chain.Drvs {
		if d.Name == name {
			e, _, _ := d.Gen(sc).Create()
			return e
		}
	}
	return ""
}

// absent: entries of lists and values behind pointers that are not there.
func init() {
	type c struct {
		name string
		f    func(x *mc.X) (accepted bool)
	}
	big3 := func(x *mc.X) [3]*big.Int {
		v := [3]*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(3)}
		k := 1 + x.Choose("absent", 7)
		for i := range v {
			if k>>uint(i)&1 == 1 {
				v[i] = nil
			}
		}
		return v
	}
	cs := []c{
		{"hypercash combine", func(x *mc.X) bool {
			n := x.Choose("inputs", 2)
			e := emptyOf("hypercash", script{"ins": n})
			sp := mc.Pick(x, "list", nil, []*hyper.SigPub{}, []*hyper.SigPub{nil}, []*hyper.SigPub{{}}, []*hyper.SigPub{nil, nil}, []*hyper.SigPub{{Signature: make([]byte, 64), PublicKey: make([]byte, 33)}, nil}, []*hyper.SigPub{nil, {Signature: make([]byte, 64), PublicKey: make([]byte, 33)}})
			ok, _ := hyper.VerifyAndCombineTransaction(e, sp)
			return ok
		}},
		{"mateverse combine", func(x *mc.X) bool {
			n := x.Choose("inputs", 2)
			e := emptyOf("mateverse", script{"ins": n})
			in := mc.Pick(x, "list", nil, []*mate.TxInput{}, []*mate.TxInput{nil}, []*mate.TxInput{{}}, []*mate.TxInput{nil, nil}, []*mate.TxInput{{}, nil}, []*mate.TxInput{{}, {}})
			if x.Choose("step", 2) == 0 {
				return mate.GetSigHash(e, &in) == nil
			}
			ok, _ := mate.VerifyAndCombineTransaction(e, in)
			return ok
		}},
		{"vsys verify", func(x *mc.X) bool {
			e := emptyOf("vsys", script{})
			sp := mc.Pick(x, "signature", nil, &vsys.SignaturePubkey{}, &vsys.SignaturePubkey{Signature: make([]byte, 64)}, &vsys.SignaturePubkey{PublicKey: make([]byte, 32)})
			if x.Choose("step", 2) == 0 {
				return vsys.VerifyTransaction(e, sp)
			}
			_, err := vsys.CreateJSONRawForSendTransaction(e, sp)
			return err == nil
		}},
		{"moac create", func(x *mc.X) bool {
			v := big3(x)
			_, _, err := moac.CreateEmptyRawTransactionAndHash("0x7cb7a4c8d8ab7c7c9d4e2f6b1c3c1f6a5a5f1b2c", 1, v[0], v[1], v[2], x.Choose("net", 2) == 1)
			return err == nil
		}},
		{"ontology create", func(x *mc.X) bool {
			_, _, err := ont.CreateRawTransactionAndHashV2(500, 20000, ont.TxStateV2{AssetType: x.Choose("asset", 4)})
			return err == nil
		}},
		{"cosmos create", func(x *mc.X) bool {
			fee := mc.Pick(x, "fee", nil, &cosmos.FeeStruct{})
			t := cosmos.NewTxStruct(mc.Pick(x, "chain", "", "c"), "", 1, 1, fee, mc.Pick(x, "messages", nil, []cosmos.Message{}))
			_, _, err := t.CreateEmptyTransactionAndHash()
			return err == nil
		}},
		{"evaio create", func(x *mc.X) bool {
			fee := mc.Pick(x, "fee", nil, &evaio.FeeStruct{})
			t := evaio.NewTxStruct(mc.Pick(x, "chain", "", "c"), "", 1, 1, fee, mc.Pick(x, "messages", nil, []evaio.Message{}))
			_, _, err := t.CreateEmptyTransactionAndHash()
			return err == nil
		}},
		{"address encoder", func(x *mc.X) bool {
			h := mc.Pick(x, "hash", nil, []byte{}, []byte{1})
			if x.Choose("step", 2) == 0 {
				return addr.AddressEncode(h, addr.AddressType{}) != ""
			}
			_, err := addr.AddressDecode("", addr.AddressType{})
			return err == nil
		}},
	}
	mc.Register(mc.Scenario{Prop: "R01", Name: "absent", ShardK: 2, Fn: func(x *mc.X) {
		k := cs[x.Choose("entry", len(cs))]
		ok := k.f(x)
		x.Step(k.name, ok)
		if ok {
			x.Outcome("accepted")
		} else {
			x.Outcome("refused")
		}
	}})
}
