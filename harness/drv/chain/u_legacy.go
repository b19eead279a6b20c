//go:build go1.21

package chain

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	alien "github.com/blocktree/go-owcdrivers/aliencoinTransaction"
	verge "github.com/blocktree/go-owcdrivers/vergeTransaction"
	vollar "github.com/blocktree/go-owcdrivers/vollarTransaction"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
	"github.com/blocktree/go-owcdrivers/zzverif/spy"
)

// legacy: Bitcoin's original serialization and digest with small variations
type legacy struct {
	name    string
	pkh, sh []byte
	time    bool // transaction time after the version
	lock    bool
	create  func(in []legIn, out []legOut, lock, interval uint32) (string, []string, error)
	combine func(empty string, sp []SP) (bool, string)
	sign    func(string, []byte) ([]byte, error)
}

type legIn struct {
	id   string
	vout uint32
	lock string
}
type legOut struct {
	addr   string
	amount uint64
}

func lockOf(s Src, i int, k *Key) ([]byte, string) {
	kind := Dev(s, fmt.Sprintf("lock%d", i), "p2pkh", "p2sh", "one-byte", "75-bytes", "252-bytes")
	switch kind {
	case "p2sh":
		return ref.P2SH(ref.Hash160(k.Pub)), kind
	case "one-byte":
		return []byte{0x51}, kind
	case "75-bytes":
		return seqb(75), kind
	case "252-bytes":
		return seqb(252), kind
	}
	return ref.P2PKH(NameOf(k, ref.Hash160)), kind
}

func genIO(s Src, curve int, limit int, amounts []uint64, kinds []string) ([]uin, []uout, bool) {
	ni, no, wide := counts(s, limit)
	var ins []uin
	names := true
	for i := 0; i < ni; i++ {
		q := sub(s, i, wide)
		u := uin{id: Dev(q, fmt.Sprintf("id%d", i), IDs(i)...), vout: Dev(q, fmt.Sprintf("vout%d", i), U32...)}
		u.key = ownerOf(q, curve, i, ref.Hash160)
		u.lock, u.kind = lockOf(q, i, u.key)
		if u.kind != "p2pkh" {
			names = false
		}
		ins = append(ins, u)
	}
	var outs []uout
	for i := 0; i < no; i++ {
		q := sub(s, i, wide)
		outs = append(outs, uout{Dev(q, fmt.Sprintf("kind%d", i), kinds...), Dev(q, fmt.Sprintf("dest%d", i), append(Hashes(i), ref.Hash160(ins[0].key.Pub))...), Dev(q, fmt.Sprintf("amount%d", i), amounts...)})
	}
	return ins, outs, names
}

func owners(ins []uin) []*Key {
	var r []*Key
	for _, i := range ins {
		r = append(r, i.key)
	}
	return r
}

func (l *legacy) addr(o uout) (string, []byte) {
	if o.kind == "sh" {
		return b58chk(l.sh, o.h), ref.P2SH(o.h)
	}
	return b58chk(l.pkh, o.h), ref.P2PKH(o.h)
}

func (l *legacy) request(ins []uin, outs []uout) ([]legIn, []legOut) {
	var li []legIn
	var lo []legOut
	for _, i := range ins {
		li = append(li, legIn{hx(i.id), i.vout, hx(i.lock)})
	}
	for _, o := range outs {
		a, _ := l.addr(o)
		lo = append(lo, legOut{a, o.amount})
	}
	return li, lo
}

func (l *legacy) gen(s Src) *Case {
	ins, outs, names := genIO(s, K1, 252, U64, []string{"pkh", "sh"})
	lock := Dev(s, "locktime", U32...)
	interval := uint32(0)
	if l.time {
		interval = Dev(s, "interval", uint32(0), 1, 600, 86400)
	}
	li, lo := l.request(ins, outs)
	t0 := time.Now().Unix()
	tx := func(stamp uint32, scripts [][]byte) []byte {
		b := ref.LE32(1)
		if l.time {
			b = ap(b, ref.LE32(stamp))
		}
		b = ap(b, ref.VarInt(uint64(len(ins))))
		for i, in := range ins {
			b = ap(b, ref.Rev(in.id), ref.LE32(in.vout), scripts[i], ref.LE32(0xffffffff))
		}
		b = ap(b, ref.VarInt(uint64(len(outs))))
		for _, o := range outs {
			_, sc := l.addr(o)
			b = ap(b, ref.LE64(o.amount), ref.VarBytes(sc))
		}
		return ref.Cat(b, ref.LE32(lock))
	}
	none := func() [][]byte {
		r := make([][]byte, len(ins))
		for i := range r {
			r[i] = []byte{0}
		}
		return r
	}
	stampOf := func(empty string) uint32 {
		b := unhex(strings.Split(empty, ":")[0])
		if !l.time || len(b) < 8 {
			return 0
		}
		return binary.LittleEndian.Uint32(b[4:])
	}
	return &Case{
		Create: func() (string, []string, error) { return l.create(li, lo, lock, interval) },
		Check: func(empty string, dg []string) string {
			st := stampOf(empty)
			if l.time {
				t1 := time.Now().Unix()
				if int64(st) < t0+int64(interval) || int64(st) > t1+int64(interval) {
					return fmt.Sprintf("transaction time %d is not the current time plus the interval %d", st, interval)
				}
			}
			want := hx(tx(st, none()))
			for _, i := range ins {
				want += ":" + hx(i.lock)
			}
			if d := diff("the unsigned transaction", strings.ToLower(empty), want); d != "" {
				return d
			}
			var wd []string
			for i := range ins {
				sc := none()
				sc[i] = ref.VarBytes(ins[i].lock)
				wd = append(wd, hx(ref.DSha256(ref.Cat(tx(st, sc), ref.LE32(1)))))
			}
			return diffAll("digest", dg, wd)
		},
		Owners:  owners(ins),
		Names:   names,
		Combine: l.combine,
		Want: func(empty string, sp []SP) string {
			sc := none()
			for i := range sc {
				sc[i] = p2pkhSig(sp[i])
			}
			return hx(tx(stampOf(empty), sc))
		},
	}
}

func (l *legacy) bad(s Src) func() (string, error) {
	c := Fixed{}
	ins, outs, _ := genIO(c, K1, 1, U64, []string{"pkh"})
	li, lo := l.request(ins, outs)
	li = append(li, legIn{hx(IDs(1)[0]), 1, hx(ref.P2PKH(Hashes(9)[0]))})
	a2, _ := l.addr(uout{"sh", Hashes(1)[0], 0})
	lo = append(lo, legOut{a2, 5})
	at := s.Choose("position", 2)
	switch Pick(s, "field", "txid", "address", "lockscript", "no-inputs", "no-outputs", "too-many-inputs", "too-many-outputs") {
	case "txid":
		li[at].id = badID(s, "value", li[at].id)
	case "address":
		lo[at].addr = badAddr(s, "value", lo[at].addr, foreign58(l.pkh, l.sh)...)
	case "lockscript":
		li[at].lock = badHex(s, "value", li[at].lock)
	case "no-inputs":
		li = Pick(s, "value", []legIn{}, nil)
	case "no-outputs":
		lo = Pick(s, "value", []legOut{}, nil)
	case "too-many-inputs":
		for n := Pick(s, "value", 253, 256, 257, 300, 512, 65536); len(li) < n; {
			li = append(li, li[0])
		}
	case "too-many-outputs":
		for n := Pick(s, "value", 253, 256, 257, 300, 512, 65536); len(lo) < n; {
			lo = append(lo, lo[0])
		}
	}
	return func() (string, error) { e, _, err := l.create(li, lo, 0, 0); return e, err }
}

func (l *legacy) register() *Drv {
	d := &Drv{Name: l.name, Curve: K1, Gen: l.gen, Sign: l.sign, Bad: l.bad}
	d.Raw = []Entry{combineEntry(d), signEntry(d)}
	reg(d)
	return d
}

// combineEntry: arguments are the unsigned text and then signature and key of every input (hex, or "nil")
func combineEntry(d *Drv) Entry {
	return Entry{Name: "combine", Base: func() []string {
		c := d.Gen(Fixed{})
		e, dg, err := c.Create()
		if err != nil {
			panic("create: " + err.Error())
		}
		a := []string{e}
		for i, g := range dg {
			a = append(a, hx(d.craft(c.Owners[i], digestBytes(g), "plain")), hx(c.Owners[i].Pub))
		}
		return a
	}, Call: func(a []string) bool {
		c := d.Gen(Fixed{})
		var sp []SP
		for i := 1; i+1 < len(a); i += 2 {
			sp = append(sp, SP{argBytes(a[i]), argBytes(a[i+1])})
		}
		ok, _ := c.Combine(a[0], sp)
		return ok
	}}
}

func signEntry(d *Drv) Entry {
	return Entry{Name: "sign", Base: func() []string { return []string{hx(ref.Sha256([]byte("m"))), hx(KeyN(d.Curve, 0).Priv)} }, Call: func(a []string) bool {
		_, err := d.Sign(a[0], argBytes(a[1]))
		return err == nil
	}}
}

func argBytes(s string) []byte {
	if s == "nil" {
		return nil
	}
	b := unhex(s)
	if b == nil {
		b = []byte{}
	}
	return b
}

func digestBytes(s string) []byte { return unhex(DigestText(s)) }

// DigestText strips what a driver's case appends to tell who signs.
func DigestText(s string) string { return strings.Split(s, "@")[0] }

func init() {
	(&legacy{name: "alien", pkh: []byte{0x17}, sh: []byte{0x30},
		create: func(in []legIn, out []legOut, lock, _ uint32) (string, []string, error) {
			var a []alien.Vin
			var b []alien.Vout
			for _, i := range in {
				a = append(a, alien.Vin{TxID: i.id, Vout: i.vout, LockScript: i.lock})
			}
			for _, o := range out {
				b = append(b, alien.Vout{Address: o.addr, Amount: o.amount})
			}
			return alien.CreateEmptyTransactionAndHash(spy.A(a), spy.A(b), lock)
		},
		combine: func(e string, sp []SP) (bool, string) {
			var l []alien.SigPub
			for _, s := range sp {
				l = append(l, alien.SigPub{Pubkey: s.Pub, Signature: s.Sig})
			}
			ok, tx, err := alien.VerifyAndCombineTransaction(e, spy.A(l))
			return ok && err == nil, tx
		}, sign: alien.SignTransaction}).register()
	(&legacy{name: "verge", pkh: []byte{0x1e}, sh: []byte{0x21}, time: true,
		create: func(in []legIn, out []legOut, lock, iv uint32) (string, []string, error) {
			var a []verge.Vin
			var b []verge.Vout
			for _, i := range in {
				a = append(a, verge.Vin{TxID: i.id, Vout: i.vout, LockScript: i.lock})
			}
			for _, o := range out {
				b = append(b, verge.Vout{Address: o.addr, Amount: o.amount})
			}
			return verge.CreateEmptyTransactionAndHash(spy.A(a), spy.A(b), lock, iv)
		},
		combine: func(e string, sp []SP) (bool, string) {
			var l []verge.SigPub
			for _, s := range sp {
				l = append(l, verge.SigPub{Pubkey: s.Pub, Signature: s.Sig})
			}
			ok, tx, err := verge.VerifyAndCombineTransaction(e, spy.A(l))
			return ok && err == nil, tx
		}, sign: verge.SignTransaction}).register()

	// Vollar: Zcash-like digest
	v := &legacy{name: "vollar", pkh: []byte{0x10, 0x1c}, sh: []byte{0x10, 0x41},
		create: func(in []legIn, out []legOut, lock, _ uint32) (string, []string, error) {
			var a []vollar.Vin
			var b []vollar.Vout
			for _, i := range in {
				a = append(a, vollar.Vin{TxID: i.id, Vout: i.vout, LockScript: i.lock})
			}
			for _, o := range out {
				b = append(b, vollar.Vout{Address: o.addr, Amount: o.amount})
			}
			return vollar.CreateEmptyRawTransactionAndHash(spy.A(a), spy.A(b))
		},
		combine: func(e string, sp []SP) (bool, string) {
			var l []vollar.SigPub
			for _, s := range sp {
				l = append(l, vollar.SigPub{Pubkey: s.Pub, Signature: s.Sig})
			}
			ok, tx, err := vollar.VerifyAndCombineRawTransaction(e, spy.A(l))
			return ok && err == nil, tx
		}, sign: vollar.SignRawTransaction}
	d := v.register()
	d.Gen = func(s Src) *Case {
		ins, outs, names := genIO(s, K1, 252, U64, []string{"pkh", "sh"})
		li, lo := v.request(ins, outs)
		tx := func(scripts [][]byte) []byte {
			b := ref.Cat(ref.LE32(1), []byte{0}, ref.VarInt(uint64(len(ins))))
			for i, in := range ins {
				b = ap(b, ref.Rev(in.id), ref.LE32(in.vout), scripts[i], ref.LE32(0xffffffff))
			}
			b = ap(b, ref.VarInt(uint64(len(outs))))
			for _, o := range outs {
				_, sc := v.addr(o)
				b = ap(b, ref.LE64(o.amount), []byte{0}, ref.VarBytes(sc), fill(32, 0))
			}
			return b
		}
		none := func() [][]byte {
			r := make([][]byte, len(ins))
			for i := range r {
				r[i] = []byte{0}
			}
			return r
		}
		return &Case{
			Create: func() (string, []string, error) { return v.create(li, lo, 0, 0) },
			Check: func(empty string, dg []string) string {
				want := hx(tx(none()))
				for _, i := range ins {
					want += ":" + hx(i.lock)
				}
				if d := diff("the unsigned transaction", strings.ToLower(empty), want); d != "" {
					return d
				}
				var prev, seq, os []byte
				for _, in := range ins {
					prev = ap(prev, ref.Rev(in.id), ref.LE32(in.vout))
					seq = ap(seq, ref.LE32(0xffffffff))
				}
				for _, o := range outs {
					_, sc := v.addr(o)
					os = ap(os, ref.LE64(o.amount), []byte{0}, ref.VarBytes(sc), fill(32, 0))
				}
				var wd []string
				for _, in := range ins {
					wd = append(wd, hx(ref.DSha256(ref.Cat(ref.DSha256(prev), ref.DSha256(seq), ref.DSha256(os), fill(64, 0), fill(16, 0), ref.LE32(1), ref.Rev(in.id), ref.LE32(in.vout), ref.VarBytes(in.lock), ref.LE32(0xffffffff)))))
				}
				return diffAll("digest", dg, wd)
			},
			Owners: owners(ins), Names: names, Combine: v.combine,
			Want: func(empty string, sp []SP) string {
				sc := none()
				for i := range sc {
					sc[i] = p2pkhSig(sp[i])
				}
				return hx(ref.Cat(tx(sc), fill(82+len(ins), 0)))
			},
		}
	}
}
