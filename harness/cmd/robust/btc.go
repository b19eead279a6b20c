//go:build go1.21

package main

import (
	"encoding/hex"
	"fmt"
	"strings"

	. "github.com/blocktree/go-owcdrivers/zzverif/drv/btcfam"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

type fixture struct {
	a      *Adapter
	seg    bool
	name   string
	sp     []*spend
	empty  string
	signed string
	u      []Unlock
	hs     []Hash
}

func fixtures() []*fixture {
	var out []*fixture
	for _, a := range All {
		for _, c := range combos(a, true) {
			f := &fixture{a: a, seg: c.seg, name: strings.Join(c.kinds, "+")}
			if c.seg {
				f.name += "/segwit"
			}
			for i, k := range c.kinds {
				if k == "multi" {
					f.sp = append(f.sp, newSpend(a, k, c.seg, uint64(100000+i), 2, ordinary[3*i], ordinary[3*i+1], ordinary[3*i+2]))
				} else {
					f.sp = append(f.sp, newSpend(a, k, c.seg, uint64(100000+i), 0, ordinary[i]))
				}
			}
			t := baseTx(a, len(f.sp), 2)
			f.empty = hx(t.Bytes())
			f.u = unlocks(a, f.sp)
			hs, err := a.Hashes(f.empty, f.u, f.seg, a.Nets[0])
			if err != nil || len(hs) != len(f.sp) {
				continue // B02 reports that
			}
			for i, s := range f.sp {
				h, _ := hex.DecodeString(hs[i].Hash)
				if s.kind == "multi" {
					for k := 0; k < s.m && k < len(hs[i].Multi); k++ {
						hs[i].Multi[k].Sig, hs[i].Multi[k].Pub = ref.FastSign(s.keys[k].d, nonceN(k), h), s.keys[k].pub
					}
					continue
				}
				hs[i].Sig, hs[i].Pub = ref.FastSign(s.keys[0].d, nonceN(7), h), s.keys[0].pub
			}
			f.hs = hs
			signAllRef(a, t, f.sp)
			f.signed = hx(t.Bytes())
			out = append(out, f)
		}
	}
	return out
}

func (f *fixture) unlocksOf(l []string) []Unlock {
	var u []Unlock
	for i := 0; i+1 < len(l); i += 2 {
		u = append(u, Unlock{Lock: l[i], Redeem: l[i+1], Amount: f.u[i/2].Amount, SigType: f.u[i/2].SigType})
	}
	return u
}

func cloneHashes(h []Hash) []Hash {
	o := append([]Hash{}, h...)
	for i := range o {
		o[i].Multi = append([]MSig{}, o[i].Multi...)
	}
	return o
}

func btcTargets() []*target {
	var out []*target
	for _, f := range fixtures() {
		f := f
		a := f.a
		n := a.Nets[0]
		var lr []string
		for _, u := range f.u {
			lr = append(lr, u.Lock, u.Redeem)
		}
		add := func(op string, base []string, call func(v []string) bool) {
			out = append(out, &target{a.Name, op + "/" + f.name, base, call})
		}
		add("hashes", append([]string{f.empty}, lr...), func(v []string) bool {
			_, err := a.Hashes(v[0], f.unlocksOf(v[1:]), f.seg, n)
			return err == nil
		})
		add("verify", append([]string{f.signed}, lr...), func(v []string) bool {
			return a.Verify(v[0], f.unlocksOf(v[1:]), f.seg, n)
		})
		ins := append([]string{f.empty}, lr...)
		for _, h := range f.hs {
			ins = append(ins, h.Hash)
			if len(h.Multi) == 0 {
				ins = append(ins, hx(h.Sig), hx(h.Pub))
			}
			for _, m := range h.Multi {
				ins = append(ins, m.Pubkey, hx(m.Sig), hx(m.Pub))
			}
		}
		nl := len(lr)
		add("insert", ins, func(v []string) bool {
			u := f.unlocksOf(v[1 : 1+nl])
			hs := cloneHashes(f.hs)
			w := v[1+nl:]
			for i := range hs {
				hs[i].Hash = w[0]
				w = w[1:]
				if len(hs[i].Multi) == 0 {
					hs[i].Sig, hs[i].Pub = bytesOf(w[0]), bytesOf(w[1])
					w = w[2:]
				}
				for j := range hs[i].Multi {
					hs[i].Multi[j].Pubkey, hs[i].Multi[j].Sig, hs[i].Multi[j].Pub = w[0], bytesOf(w[1]), bytesOf(w[2])
					w = w[3:]
				}
			}
			_, err := a.Insert(v[0], hs, u, f.seg)
			return err == nil
		})
		for i, t := range []string{f.empty, f.signed} {
			add([]string{"decode-empty", "decode-signed"}[i], []string{t}, func(v []string) bool {
				_, err := a.Decode(bytesOf(v[0]), f.seg)
				return err == nil
			})
		}
		if a.SignAll != nil {
			base := append([]string{f.empty}, lr...)
			for _, s := range f.sp {
				base = append(base, hx(s.keys[0].priv()))
			}
			nl := len(lr)
			add("sign-all", base, func(v []string) bool {
				var keys [][]byte
				for _, k := range v[1+nl:] {
					keys = append(keys, bytesOf(k))
				}
				_, err := a.SignAll(v[0], f.unlocksOf(v[1:1+nl]), keys)
				return err == nil
			})
		}
	}
	for _, a := range All {
		a := a
		n := a.Nets[0]
		out = append(out, &target{a.Name, "sign", []string{hx(ref.Sha256([]byte("m"))), hx(ordinary[0].priv())}, func(v []string) bool {
			_, _, err := a.Sign(v[0], bytesOf(v[1]))
			return err == nil
		}}, &target{a.Name, "multisig", []string{hx(ordinary[0].pub), hx(ordinary[1].pub), hx(ordinary[2].pub)}, func(v []string) bool {
			var p [][]byte
			for _, k := range v {
				p = append(p, bytesOf(k))
			}
			ok := false
			for _, seg := range segChoices(a) {
				_, _, err := a.Multi(2, p, seg, n)
				ok = ok || err == nil
			}
			return ok
		}})
	}
	return out
}

func init() {
	var fx []*fixture
	pick := func(x *mc.X) *fixture {
		if fx == nil {
			fx = fixtures()
		}
		f := fx[x.Choose("shape", len(fx))]
		x.Note("%s %s", f.a.Name, f.name)
		return f
	}
	// lists of the wrong length, entries left empty, counts and kinds that do not belong to the input
	mc.Register(mc.Scenario{Prop: "R01", Name: "lists", Quick: 2, Thorough: 3, ShardK: 3, Fn: func(x *mc.X) {
		f := pick(x)
		a := f.a
		op := mc.Pick(x, "operation", "hashes", "insert", "verify", "verify-unsigned")
		u := append([]Unlock{}, f.u...)
		switch mc.PickDev(x, "unlock", "valid", "nil", "empty", "short", "long", "blank", "swapped", "signed-type", "amount") {
		case "nil":
			u = nil
		case "empty":
			u = []Unlock{}
		case "short":
			u = u[:len(u)-1]
		case "long":
			u = append(u, u[0])
		case "blank":
			u[0] = Unlock{}
		case "swapped":
			u[0].Lock, u[0].Redeem = u[0].Redeem, u[0].Lock
		case "signed-type":
			u[0].SigType = mc.Pick(x, "type", byte(0), 2, 3, 0x41, 0x81, 0xff)
		case "amount":
			u[0].Amount = mc.Pick(x, "value", uint64(0), 1<<63, 1<<64-1)
		}
		seg := f.seg
		if a.SegParam && mc.PickDev(x, "flag", "right", "wrong") == "wrong" {
			seg = !seg
		}
		net := a.Nets[0]
		switch mc.PickDev(x, "network", "own", "none", "other") {
		case "none":
			net = Net{}
		case "other":
			net = a.Nets[len(a.Nets)-1]
		}
		var ok bool
		switch op {
		case "hashes":
			_, err := a.Hashes(f.empty, u, seg, net)
			ok = err == nil
		case "verify":
			ok = a.Verify(f.signed, u, seg, net)
		case "verify-unsigned":
			ok = a.Verify(f.empty, u, seg, net)
		case "insert":
			h := cloneHashes(f.hs)
			at := len(h) - 1
			switch mc.PickDev(x, "hashes", "valid", "nil", "empty", "short", "long", "blank", "no-normal", "no-slots", "count0", "count1", "count255", "more-slots", "blank-slot", "all-slots", "kind") {
			case "nil":
				h = nil
			case "empty":
				h = []Hash{}
			case "short":
				h = h[:at]
			case "long":
				h = append(h, h[0])
			case "blank":
				h[at] = Hash{}
			case "no-normal":
				h[at].NoNormal = true
			case "no-slots":
				h[at].Multi = nil
			case "count0":
				h[at].N = 0
			case "count1":
				h[at].N = 1
			case "count255":
				h[at].N = 255
			case "more-slots":
				for i := 0; i < 20; i++ {
					h[at].Multi = append(h[at].Multi, MSig{Pubkey: hx(ordinary[0].pub), SigType: a.SigType, Sig: make([]byte, 64), Pub: ordinary[0].pub})
				}
			case "blank-slot":
				h[at].Multi = append(h[at].Multi, MSig{})
			case "all-slots":
				for i := range h[at].Multi {
					h[at].Multi[i].Sig, h[at].Multi[i].Pub = make([]byte, 64), ordinary[i].pub
				}
			case "kind":
				if len(h[at].Multi) > 0 {
					h[at].Multi, h[at].N, h[at].NoNormal = nil, 0, false
				} else {
					h[at].Multi, h[at].N, h[at].NoNormal = []MSig{{Pubkey: hx(ordinary[0].pub), SigType: a.SigType, Sig: h[at].Sig, Pub: h[at].Pub}}, 1, true
				}
			}
			_, err := a.Insert(f.empty, h, u, seg)
			ok = err == nil
		}
		x.Step("lists "+a.Name+" "+op, ok)
		x.Outcome(fmt.Sprintf("%s %v", op, ok))
	}})
}
