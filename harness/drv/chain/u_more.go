//go:build go1.21

package chain

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	bytom "github.com/blocktree/go-owcdrivers/bytomTransaction"
	elastos "github.com/blocktree/go-owcdrivers/elastosTransaction"
	fiii "github.com/blocktree/go-owcdrivers/fiiiTransaction"
	hc "github.com/blocktree/go-owcdrivers/hypercashTransaction"
	mate "github.com/blocktree/go-owcdrivers/mateverseTransaction"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
	"github.com/blocktree/go-owcdrivers/zzverif/spy"
)

// ---------------------------------------------------------------- HyperCash

func hcHash(pub []byte) []byte { return ref.Ripemd160(ref.Blake256(pub)) }

var hcPrefix = []byte{0x09, 0x7f}

func hcGen(s Src) *Case {
	ni, no, wide := counts(s, 515)
	type hin struct {
		uin
		tree          byte
		amount        uint64
		height, index uint32
	}
	var ins []hin
	var vins []hc.Vin
	names := true
	for i := 0; i < ni; i++ {
		q := sub(s, i, wide)
		l := func(n string) string { return fmt.Sprintf("%s%d", n, i) }
		var h hin
		h.id = Dev(q, l("id"), IDs(i)...)
		h.vout = Dev(q, l("vout"), U32...)
		h.key = ownerOf(q, K1, i, hcHash)
		h.kind = Dev(q, l("lock"), "p2pkh", "p2sh", "75-bytes", "252-bytes", "253-bytes", "300-bytes")
		switch h.kind {
		case "p2sh":
			h.lock = ref.P2SH(hcHash(h.key.Pub))
		case "75-bytes":
			h.lock = seqb(75)
		case "252-bytes":
			h.lock = seqb(252)
		case "253-bytes":
			h.lock = seqb(253)
		case "300-bytes":
			h.lock = seqb(300)
		default:
			h.lock = ref.P2PKH(NameOf(h.key, hcHash))
		}
		names = names && h.kind == "p2pkh"
		h.tree = Dev(q, l("tree"), byte(0), 1)
		h.amount = Dev(q, l("value"), U64...)
		h.height = Dev(q, l("height"), U32...)
		h.index = Dev(q, l("index"), U32...)
		ins = append(ins, h)
		vins = append(vins, hc.Vin{TxID: hx(h.id), Vout: h.vout, Tree: h.tree, Amount: h.amount, LockScript: hx(h.lock), BlockHeight: h.height, BlockIndex: h.index})
	}
	type ho struct {
		amount uint64
		script []byte
	}
	var outs []ho
	var vouts []hc.Vout
	for i := 0; i < no; i++ {
		q := sub(s, i, wide)
		h := Dev(q, fmt.Sprintf("dest%d", i), Hashes(i)...)
		a := Dev(q, fmt.Sprintf("amount%d", i), U64...)
		outs = append(outs, ho{a, ref.P2PKH(h)})
		vouts = append(vouts, hc.Vout{Amount: a, Address: hcAddr(hcPrefix, h)})
	}
	lock, expiry := Dev(s, "locktime", U32...), Dev(s, "expiry", U32...)
	create := func() (string, []string, error) {
		return hc.CreateEmptyTransactionAndHash(spy.A(vins), spy.A(vouts), lock, expiry)
	}
	if no <= 2 && Dev(s, "omni", false, true) {
		pid := Dev(s, "property", U32...)
		am := Dev(s, "tokens", U64...)
		pay := ref.Cat([]byte("omni"), fill(4, 0), ref.BE32(pid), ref.BE64(am))
		pl := ho{0, ref.Cat([]byte{0x6a, byte(len(pay))}, pay)}
		var change *hc.Vout
		if no == 2 {
			change = &vouts[1]
			outs = []ho{outs[0], pl, outs[1]}
		} else {
			outs = []ho{outs[0], pl}
		}
		create = func() (string, []string, error) {
			return hc.CreateOmniEmptyTransactionAndHash(spy.A(vins), spy.A(&vouts[0]), spy.A(change), am, pid, lock, expiry)
		}
	}
	prefix := func(ser uint16) []byte {
		b := ref.Cat(ref.LE16(1), ref.LE16(ser), ref.VarInt(uint64(len(ins))))
		for _, i := range ins {
			b = ap(b, ref.Rev(i.id), ref.LE32(i.vout), []byte{i.tree}, ref.LE32(0xffffffff))
		}
		b = ap(b, ref.VarInt(uint64(len(outs))))
		for _, o := range outs {
			b = ap(b, ref.LE64(o.amount), ref.LE16(0), ref.VarBytes(o.script))
		}
		return ref.Cat(b, ref.LE32(lock), ref.LE32(expiry))
	}
	fraud := func(i hin) []byte { return ref.Cat(ref.LE64(i.amount), ref.LE32(i.height), ref.LE32(i.index)) }
	var ow []*Key
	for _, i := range ins {
		ow = append(ow, i.key)
	}
	return &Case{Create: create, Owners: ow, Names: names,
		Check: func(empty string, dg []string) string {
			want := hx(prefix(0))
			for _, i := range ins {
				want += ":" + hx(ref.VarBytes(i.lock)) + "/" + hx(fraud(i))
			}
			if d := diff("the unsigned transaction", strings.ToLower(empty), want); d != "" {
				return d
			}
			var wd []string
			for k := range ins {
				w := ref.Cat(ref.LE16(1), ref.LE16(3), ref.VarInt(uint64(len(ins))))
				for j := range ins {
					if j == k {
						w = ap(w, ref.VarBytes(ins[j].lock))
					} else {
						w = append(w, 0)
					}
				}
				wd = append(wd, hx(ref.Blake256(ref.Cat(ref.LE32(1), ref.Blake256(prefix(1)), ref.Blake256(w)))))
			}
			if d := diffAll("digest", dg, wd); d != "" {
				return d
			}
			l, err := hc.GetVinList(empty)
			if err != nil || len(l) != len(ins) {
				return fmt.Sprintf("GetVinList finds %d inputs, error %v", len(l), err)
			}
			for k := range l {
				if l[k].TxID != hx(ins[k].id) || l[k].Vout != ins[k].vout {
					return fmt.Sprintf("GetVinList: input %d is %s:%d", k, l[k].TxID, l[k].Vout)
				}
			}
			return ""
		},
		Combine: func(e string, sp []SP) (bool, string) {
			var l []*hc.SigPub
			for _, p := range sp {
				if p.Sig == nil && p.Pub == nil {
					l = append(l, nil)
					continue
				}
				l = append(l, &hc.SigPub{Signature: p.Sig, PublicKey: p.Pub})
			}
			return hc.VerifyAndCombineTransaction(e, spy.A(l))
		},
		Want: func(empty string, sp []SP) string {
			b := ref.Cat(prefix(0), ref.VarInt(uint64(len(ins))))
			for k, i := range ins {
				b = ap(b, fraud(i), p2pkhSig(sp[k]))
			}
			return hx(b)
		}}
}

func hcAddr(prefix, h []byte) string {
	b := ref.Cat(prefix, h)
	return ref.B58Enc(ref.Cat(b, ref.DBlake256(b)[:4]), b58Alpha)
}

func hcBad(s Src) func() (string, error) {
	a0, a1 := hcAddr(hcPrefix, Hashes(0)[0]), hcAddr(hcPrefix, Hashes(1)[0])
	lk := hx(ref.P2PKH(hcHash(KeyN(K1, 0).Pub)))
	vins := []hc.Vin{{TxID: hx(IDs(0)[0]), LockScript: lk}, {TxID: hx(IDs(1)[0]), Vout: 1, LockScript: lk}}
	vouts := []hc.Vout{{Amount: 5, Address: a0}, {Amount: 6, Address: a1}}
	at := s.Choose("position", 2)
	var foreign []string
	for _, p := range [][]byte{{0x00}, {0x7f}, {0x09, 0x80}, {0x0f, 0x21}, {0x09, 0x7f, 0x00}, {0x09}, {0x05}} {
		foreign = append(foreign, hcAddr(p, Hashes(0)[0]))
	}
	foreign = append(foreign, hcAddr(hcPrefix, Hashes(0)[0][:19]), hcAddr(hcPrefix, ref.Cat(Hashes(0)[0], []byte{1})), hcAddr(hcPrefix, fill(32, 3)), b58chk(hcPrefix, Hashes(0)[0]))
	f := Pick(s, "field", "txid", "address", "lockscript", "no-inputs", "no-outputs", "tree", "script-version")
	switch f {
	case "txid":
		vins[at].TxID = badID(s, "value", vins[at].TxID)
	case "address":
		vouts[at].Address = badAddr(s, "value", vouts[at].Address, foreign...)
	case "lockscript":
		vins[at].LockScript = badHex(s, "value", lk)
	case "no-inputs":
		vins = Pick(s, "value", []hc.Vin{}, nil)
	case "no-outputs":
		vouts = Pick(s, "value", []hc.Vout{}, nil)
	case "tree":
		vins[at].Tree = Pick(s, "value", byte(2), 3, 127, 255)
	case "script-version":
		vouts[at].PkScriptVersion = Pick(s, "value", uint16(1), 255, 256, 65535)
	}
	if s.Choose("omni", 2) == 1 {
		to, ch := &hc.Vout{}, &hc.Vout{}
		if len(vouts) == 2 {
			to, ch = &vouts[0], &vouts[1]
		} else {
			to, ch = nil, nil
		}
		return func() (string, error) {
			e, _, err := hc.CreateOmniEmptyTransactionAndHash(vins, to, ch, 1, 1, 0, 0)
			return e, err
		}
	}
	return func() (string, error) {
		e, _, err := hc.CreateEmptyTransactionAndHash(vins, vouts, 0, 0)
		return e, err
	}
}

// ---------------------------------------------------------------- Elastos

func elaHash(pub []byte) []byte { return ref.Hash160(ref.Cat([]byte{0x21}, pub, []byte{0xac})) }

func elaGen(s Src) *Case {
	ni, no, wide := counts(s, 515)
	var vins []elastos.Vin
	var vouts []elastos.Vout
	var ow []*Key
	var addrs []string
	b := ref.Cat([]byte{2, 0, 0}, ref.VarInt(uint64(ni)))
	for i := 0; i < ni; i++ {
		q := sub(s, i, wide)
		id := Dev(q, fmt.Sprintf("id%d", i), IDs(i)...)
		v := Dev(q, fmt.Sprintf("vout%d", i), U16...)
		k := ownerOf(q, R1, i, elaHash)
		a := b58chk([]byte{0x21}, elaHash(k.Pub))
		vins = append(vins, elastos.Vin{TxID: hx(id), Vout: v, Address: a})
		b = ap(b, ref.Rev(id), ref.LE16(v), ref.LE32(0xffffffff))
		dup := false
		for _, o := range ow {
			if o == k {
				dup = true
			}
		}
		if !dup {
			ow = append(ow, k)
			addrs = append(addrs, a)
		}
	}
	b = ap(b, ref.VarInt(uint64(no)))
	for i := 0; i < no; i++ {
		q := sub(s, i, wide)
		as := Dev(q, fmt.Sprintf("asset%d", i), append([][]byte{ref.MustHex("a3d0eaa466df74983b5d7c543de6904f4c9418ead5ffd6d25814234a96db37b0")}, IDs(7)...)...)
		am := Dev(q, fmt.Sprintf("amount%d", i), U64...)
		h := Dev(q, fmt.Sprintf("dest%d", i), Hashes(i)...)
		vouts = append(vouts, elastos.Vout{AssetID: hx(as), Amount: am, Address: b58chk([]byte{0x21}, h)})
		b = ap(b, ref.Rev(as), ref.LE64(am), fill(4, 0), []byte{0x21}, h)
	}
	b = ap(b, fill(4, 0))
	return &Case{Owners: ow, OnlyTx: true,
		Create: func() (string, []string, error) {
			e, hs, err := elastos.CreateEmptyRawTransactionAndHash(spy.A(vins), spy.A(vouts))
			var r []string
			for _, h := range hs {
				r = append(r, h.Hash+"@"+h.Address)
			}
			return e, r, err
		},
		Check: func(empty string, dg []string) string {
			if d := diff("the unsigned transaction", strings.ToLower(empty), hx(b)); d != "" {
				return d
			}
			var wd []string
			for _, a := range addrs {
				wd = append(wd, hx(ref.Sha256(b))+"@"+a)
			}
			return diffAll("digest", dg, wd)
		},
		Combine: func(e string, sp []SP) (bool, string) {
			var l []elastos.SigPub
			for _, p := range sp {
				l = append(l, elastos.SigPub{Signature: p.Sig, PublicKey: p.Pub})
			}
			return elastos.VerifyAndCombineRawTransaction(e, spy.A(l))
		},
		Want: func(empty string, sp []SP) string {
			t := ref.Cat(b, ref.VarInt(uint64(len(sp))))
			for _, p := range sp {
				t = ap(t, []byte{0x41, 0x40}, p.Sig, []byte{0x23, 0x21}, p.Pub, []byte{0xac})
			}
			return hx(t)
		}}
}

func elaBad(s Src) func() (string, error) {
	good := b58chk([]byte{0x21}, Hashes(0)[0])
	as := "a3d0eaa466df74983b5d7c543de6904f4c9418ead5ffd6d25814234a96db37b0"
	vins := []elastos.Vin{{TxID: hx(IDs(0)[0]), Address: good}, {TxID: hx(IDs(1)[0]), Vout: 1, Address: good}}
	vouts := []elastos.Vout{{AssetID: as, Amount: 5, Address: good}, {AssetID: as, Amount: 6, Address: b58chk([]byte{0x21}, Hashes(1)[0])}}
	at := s.Choose("position", 2)
	switch Pick(s, "field", "txid", "address", "asset", "no-inputs", "no-outputs") {
	case "txid":
		vins[at].TxID = badID(s, "value", vins[at].TxID)
	case "address":
		vouts[at].Address = badAddr(s, "value", vouts[at].Address, foreign58([]byte{0x21})...)
	case "asset":
		vouts[at].AssetID = badID(s, "value", as)
	case "no-inputs":
		vins = Pick(s, "value", []elastos.Vin{}, nil)
	case "no-outputs":
		vouts = Pick(s, "value", []elastos.Vout{}, nil)
	}
	return func() (string, error) {
		e, _, err := elastos.CreateEmptyRawTransactionAndHash(vins, vouts)
		return e, err
	}
}

// ---------------------------------------------------------------- Mateverse

// mateGen: the node supplies the unsigned transaction, the driver reads the inputs and hands out digests.
func mateGen(s Src) *Case {
	ni, no, wide := counts(s, 515)
	type min struct {
		id    []byte
		vout  uint32
		seq   uint32
		key   *Key
		text  string
		lock  []byte
		names bool
	}
	var ins []min
	names := true
	for i := 0; i < ni; i++ {
		q := sub(s, i, wide)
		l := func(n string) string { return fmt.Sprintf("%s%d", n, i) }
		m := min{id: Dev(q, l("id"), IDs(i)...), vout: Dev(q, l("vout"), U32...), seq: Dev(q, l("sequence"), 0xffffffff, uint32(0), 1, 0x01020304, 0xfffffffe), names: true}
		m.key = ownerOf(q, K1, i, ref.Hash160)
		h := NameOf(m.key, ref.Hash160)
		m.lock = ref.P2PKH(h)
		m.text = "dup hash160 [ " + hx(h) + " ] equalverify checksig"
		switch Dev(q, l("lock"), "p2pkh", "attenuation", "attenuation-long") {
		case "attenuation":
			a, b := []byte("PN=0;LH=1"), fill(36, 9)
			m.text = "[ " + hx(a) + " ] [ " + hx(b) + " ] checkattenuationverify " + m.text
			m.lock = ref.Cat([]byte{0x4d}, ref.LE16(uint16(len(a))), a, []byte{byte(len(b))}, b, []byte{0xb2}, m.lock)
		case "attenuation-long":
			a, b := seqb(300), fill(36, 9)
			m.text = "[ " + hx(a) + " ] [ " + hx(b) + " ] checkattenuationverify " + m.text
			m.lock = ref.Cat([]byte{0x4d}, ref.LE16(uint16(len(a))), a, []byte{byte(len(b))}, b, []byte{0xb2}, m.lock)
		}
		ins = append(ins, m)
	}
	tail := ref.VarInt(uint64(no))
	for i := 0; i < no; i++ {
		q := sub(s, i, wide)
		tail = ap(tail, ref.LE64(Dev(q, fmt.Sprintf("amount%d", i), U64...)), ref.VarBytes(ref.P2PKH(Hashes(i)[0])), ref.LE32(1), ref.LE32(0))
	}
	tail = ap(tail, ref.LE32(Dev(s, "locktime", U32...)))
	tx := func(scripts [][]byte) []byte {
		b := ref.Cat(ref.LE32(4), ref.VarInt(uint64(len(ins))))
		for i, in := range ins {
			b = ap(b, ref.Rev(in.id), ref.LE32(in.vout), scripts[i], ref.LE32(in.seq))
		}
		return ref.Cat(b, tail)
	}
	none := func() [][]byte {
		r := make([][]byte, len(ins))
		for i := range r {
			r[i] = []byte{0}
		}
		return r
	}
	prep := func(e string) ([]*mate.TxInput, error) {
		l, err := mate.GetInputsFromEmptyRawTransaction(e)
		if err != nil {
			return nil, err
		}
		for i := range l {
			if i < len(ins) {
				l[i].SetLockScript(ins[i].text)
			}
		}
		return l, mate.GetSigHash(e, &l)
	}
	var ow []*Key
	for _, i := range ins {
		ow = append(ow, i.key)
	}
	var held []*mate.TxInput // prepared from the untampered transaction
	return &Case{Owners: ow, Names: names,
		Create: func() (string, []string, error) {
			e := hx(tx(none()))
			l, err := prep(e)
			held = l
			var r []string
			for _, i := range l {
				r = append(r, i.GetHash())
			}
			return e, r, err
		},
		Check: func(empty string, dg []string) string {
			l, _ := mate.GetInputsFromEmptyRawTransaction(empty)
			if len(l) != len(ins) {
				return fmt.Sprintf("%d inputs read, want %d", len(l), len(ins))
			}
			var wd []string
			for i := range ins {
				if l[i].GetTxID() != hx(ins[i].id) || l[i].GetVout() != ins[i].vout {
					return fmt.Sprintf("input %d read as %s:%d", i, l[i].GetTxID(), l[i].GetVout())
				}
				sc := none()
				sc[i] = ref.VarBytes(ins[i].lock)
				wd = append(wd, hx(ref.DSha256(ref.Cat(tx(sc), ref.LE32(1)))))
			}
			return diffAll("digest", dg, wd)
		},
		Combine: func(e string, sp []SP) (bool, string) {
			ok, t := false, ""
			// both ways to hold the inputs: kept from the digest step, or read again from the text
			if again, err := prep(e); err == nil && len(sp) <= len(again) {
				for i := range sp {
					again[i].SetSignature(hx(sp[i].Sig))
					again[i].SetPubKey(hx(sp[i].Pub))
				}
				ok, t = mate.VerifyAndCombineTransaction(e, spy.P(again[:len(sp)]))
			}
			if held != nil && len(sp) <= len(held) {
				for i := range sp {
					held[i].SetSignature(hx(sp[i].Sig))
					held[i].SetPubKey(hx(sp[i].Pub))
				}
				ok2, t2 := mate.VerifyAndCombineTransaction(e, held[:len(sp)])
				if ok2 {
					return ok2, t2
				}
			}
			return ok, t
		},
		Want: func(empty string, sp []SP) string {
			sc := none()
			for i := range sc {
				sc[i] = p2pkhSig(sp[i])
			}
			return hx(tx(sc))
		}}
}

func mateBad(s Src) func() (string, error) {
	h := hx(ref.Hash160(KeyN(K1, 0).Pub))
	p := "dup hash160 [ " + h + " ] equalverify checksig"
	bad := Pick(s, "lockscript", "", "unknown", "dup hash160 [ ] equalverify checksig", "dup hash160 [ "+h[:38]+" ] equalverify checksig", "dup hash160 [ zz"+h[2:]+" ] equalverify checksig", "dup hash160 [ "+h[:39]+" ] equalverify checksig", "[ 00 ] "+p, "[ 00 ] [ 00 ] [ 00 ] "+p, "return", "dup hash160 [ "+h+" equalverify checksig")
	at := s.Choose("position", 2)
	return func() (string, error) {
		b := ref.Cat(ref.LE32(4), []byte{2}, IDs(0)[0], ref.LE32(0), []byte{0}, ref.LE32(0xffffffff), IDs(1)[0], ref.LE32(1), []byte{0}, ref.LE32(0xffffffff), []byte{1}, ref.LE64(1), ref.VarBytes(ref.P2PKH(Hashes(0)[0])), ref.LE32(0))
		l, err := mate.GetInputsFromEmptyRawTransaction(hx(b))
		if err != nil {
			return "", fmt.Errorf("")
		}
		l[0].SetLockScript(p)
		l[1].SetLockScript(p)
		l[at].SetLockScript(bad)
		err = mate.GetSigHash(hx(b), &l)
		return l[at].GetHash(), err
	}
}

// ---------------------------------------------------------------- FIII

var fiiiPrefix = []byte{0x40, 0xe7, 0xe9, 0x15}

type fiiiIn struct {
	OutputTransactionHash string
	OutputIndex           int64
	Size                  int64
	UnlockScript          string
}
type fiiiOut struct {
	Index, Amount, Size int64
	LockScript          string
}
type fiiiMsg struct {
	Version                 int64
	Hash                    string
	Timestamp               int64
	Locktime, ExpiredTime   int64
	InputCount, OutputCount int64
	Inputs                  []fiiiIn
	Outputs                 []fiiiOut
	Size                    int64
}

func fiiiGen(s Src) *Case {
	ni, no, wide := counts(s, 515)
	var vins []fiii.Vin
	var vouts []fiii.Vout
	var want fiiiMsg
	var ow []*Key
	var wd []string
	for i := 0; i < ni; i++ {
		q := sub(s, i, wide)
		id := Dev(q, fmt.Sprintf("id%d", i), IDs(i)...)
		v := Dev(q, fmt.Sprintf("vout%d", i), 0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x01020304, 0x7fffffff)
		t := strings.ToUpper(hx(id))
		if Dev(q, fmt.Sprintf("case%d", i), "upper", "lower") == "lower" {
			t = hx(id)
		}
		vins = append(vins, fiii.Vin{TxID: t, Vout: v})
		ow = append(ow, ownerOf(q, Ed, i, ref.Hash160))
		want.Inputs = append(want.Inputs, fiiiIn{OutputTransactionHash: t, OutputIndex: int64(v)})
		wd = append(wd, strings.ToLower(hx(id)+hx(ref.BE32(uint32(v)))))
	}
	pre := Dev(s, "prefix", fiiiPrefix, []byte{0x40, 0xe7, 0xe9, 0xaa}, []byte{0x00})
	var amounts []int64
	for _, v := range I64 {
		if v > 0 {
			amounts = append(amounts, v)
		}
	}
	for i := 0; i < no; i++ {
		q := sub(s, i, wide)
		h := Dev(q, fmt.Sprintf("dest%d", i), Hashes(i)...)
		a := Dev(q, fmt.Sprintf("amount%d", i), amounts...)
		vouts = append(vouts, fiii.Vout{AddressPrefix: append([]byte{}, pre...), Address: b58chk(pre, h), Amount: a})
		sc := "OP_DUP OP_HASH160 " + strings.ToUpper(hx(h)) + " OP_EQUALVERIFY OP_CHECKSIG"
		want.Outputs = append(want.Outputs, fiiiOut{int64(i), a, int64(len(sc)), sc})
	}
	ver := Dev(s, "version", 1, 0, 2, 255)
	lock := Dev(s, "locktime", append([]int64{0}, I64...)...)
	exp := Dev(s, "expired", append([]int64{0}, I64...)...)
	want.Version, want.Locktime, want.ExpiredTime = int64(ver), lock, exp
	want.InputCount, want.OutputCount = int64(ni), int64(no)
	t0 := time.Now().UnixNano() / 1000000
	parse := func(t string) (fiiiMsg, error) {
		var m fiiiMsg
		d := json.NewDecoder(strings.NewReader(t))
		d.DisallowUnknownFields()
		err := d.Decode(&m)
		return m, err
	}
	return &Case{Owners: ow,
		Create: func() (string, []string, error) {
			return fiii.CreateEmptyTransactionAndMessage(spy.A(vins), spy.A(vouts), ver, lock, exp)
		},
		Check: func(empty string, dg []string) string {
			m, err := parse(empty)
			if err != nil {
				return "unsigned transaction is not the expected JSON: " + err.Error()
			}
			if t1 := time.Now().UnixNano() / 1000000; m.Timestamp < t0 || m.Timestamp > t1 {
				return fmt.Sprintf("timestamp %d is not the current time in milliseconds", m.Timestamp)
			}
			w := want
			w.Timestamp = m.Timestamp
			if d := diff("the unsigned transaction", js(m), js(w)); d != "" {
				return d
			}
			var low []string
			for _, g := range dg {
				low = append(low, strings.ToLower(g))
			}
			return diffAll("message", low, wd)
		},
		Combine: func(e string, sp []SP) (bool, string) {
			var l []fiii.SigPub
			for _, p := range sp {
				l = append(l, fiii.SigPub{Signature: p.Sig, Pubkey: p.Pub})
			}
			ok, t, err := fiii.VerifyAndCombineTransaction(e, spy.A(l))
			return ok && err == nil, t
		},
		Want: func(empty string, sp []SP) string {
			m, _ := parse(empty)
			w := want
			w.Timestamp = m.Timestamp
			w.Inputs = append([]fiiiIn{}, want.Inputs...)
			b := ref.Cat(ref.BE64(uint64(w.Timestamp)), ref.BE64(uint64(lock)), ref.BE64(uint64(exp)), ref.BE32(uint32(ni)))
			for i := range w.Inputs {
				w.Inputs[i].UnlockScript = strings.ToUpper(hx(sp[i].Sig)) + "[ALL] 302A300506032B6570032100" + strings.ToUpper(hx(sp[i].Pub))
				w.Inputs[i].Size = int64(len(w.Inputs[i].UnlockScript))
				b = ap(b, unhex(w.Inputs[i].OutputTransactionHash), ref.BE32(uint32(w.Inputs[i].OutputIndex)), ref.BE32(uint32(w.Inputs[i].Size)), []byte(w.Inputs[i].UnlockScript))
			}
			b = ap(b, ref.BE32(uint32(no)))
			for _, o := range w.Outputs {
				b = ap(b, ref.BE32(uint32(o.Index)), ref.BE64(uint64(o.Amount)), ref.BE32(uint32(o.Size)), []byte(o.LockScript))
			}
			w.Hash = strings.ToUpper(hx(ref.Sha256(b)))
			w.Size = int64(len(b) + 36)
			return js(w)
		}}
}

func fiiiTampers(empty string) []Tamper {
	var out []Tamper
	var m fiiiMsg
	json.Unmarshal([]byte(empty), &m)
	add := func(n string, f func(t *fiiiMsg)) {
		var t fiiiMsg
		json.Unmarshal([]byte(empty), &t)
		f(&t)
		out = append(out, Tamper{n, js(t)})
	}
	for i := range m.Inputs {
		id := m.Inputs[i].OutputTransactionHash
		for j := 0; j < len(id); j++ {
			c := byte('0')
			if id[j] == '0' {
				c = '1'
			}
			add(fmt.Sprintf("in%d.id[%d]", i, j), func(t *fiiiMsg) { t.Inputs[i].OutputTransactionHash = id[:j] + string([]byte{c}) + id[j+1:] })
		}
		for _, d := range []int64{1, -1, 2, 256, 65536, 1 << 24} {
			if v := m.Inputs[i].OutputIndex + d; v >= 0 && v <= 0x7fffffff {
				add(fmt.Sprintf("in%d.index%+d", i, d), func(t *fiiiMsg) { t.Inputs[i].OutputIndex = v })
			}
		}
		add("drop input", func(t *fiiiMsg) { t.Inputs = append(t.Inputs[:i:i], t.Inputs[i+1:]...) })
	}
	add("input count", func(t *fiiiMsg) { t.InputCount++ })
	add("output count", func(t *fiiiMsg) { t.OutputCount++ })
	add("drop output", func(t *fiiiMsg) { t.Outputs = t.Outputs[:len(t.Outputs)-1] })
	return out
}

func fiiiBad(s Src) func() (string, error) {
	good := b58chk(fiiiPrefix, Hashes(0)[0])
	vins := []fiii.Vin{{hx(IDs(0)[0]), 0}, {hx(IDs(1)[0]), 1}}
	vouts := []fiii.Vout{{append([]byte{}, fiiiPrefix...), good, 5}, {append([]byte{}, fiiiPrefix...), b58chk(fiiiPrefix, Hashes(1)[0]), 6}}
	at := s.Choose("position", 2)
	switch Pick(s, "field", "txid", "vout", "address", "amount", "no-inputs", "no-outputs") {
	case "txid":
		vins[at].TxID = badID(s, "value", vins[at].TxID)
	case "vout":
		vins[at].Vout = Pick(s, "value", -1, -2147483648, 0x80000000, 0x100000000, 0x7fffffffffffffff)
	case "address":
		vouts[at].Address = badAddr(s, "value", vouts[at].Address, foreign58(fiiiPrefix)...)
	case "amount":
		vouts[at].Amount = Pick(s, "value", int64(0), -1, -1<<63)
	case "no-inputs":
		vins = Pick(s, "value", []fiii.Vin{}, nil)
	case "no-outputs":
		vouts = Pick(s, "value", []fiii.Vout{}, nil)
	}
	return func() (string, error) {
		e, _, err := fiii.CreateEmptyTransactionAndMessage(vins, vouts, 1, 0, 0)
		return e, err
	}
}

// ---------------------------------------------------------------- Bytom

func btmAddr(hrp string, prog []byte) string {
	return ref.Bech32Raw(hrp, append([]byte{0}, ref.To5(prog)...), 1)
}

func entry(typ string, body []byte) []byte {
	return ref.Sha3_256(ref.Cat([]byte("entryid:"+typ+":"), ref.Sha3_256(body)))
}

type BtmIn struct {
	ID     []byte
	Pos    uint64
	Asset  []byte
	Amount uint64
	Prog   []byte
}
type BtmOut struct {
	Prog   []byte
	Amount uint64
}

var btmAsset = fill(32, 0xff)

// BtmTx serializes with the given witnesses (nil: unsigned).
func BtmTx(ins []BtmIn, outs []BtmOut, tr uint64, wit [][]byte) []byte {
	b := ref.Cat([]byte{7, 1}, uv(tr), uv(uint64(len(ins))))
	for i, in := range ins {
		c := ref.Cat(in.ID, in.Asset, uv(in.Amount), uv(in.Pos), []byte{1}, uv(uint64(len(in.Prog))), in.Prog)
		c = ref.Cat([]byte{1}, uv(uint64(len(c))), c)
		w := []byte{0}
		if wit != nil {
			w = wit[i]
		}
		b = ap(b, []byte{1}, uv(uint64(len(c))), c, uv(uint64(len(w))), w)
	}
	b = ap(b, uv(uint64(len(outs))))
	for _, o := range outs {
		c := ref.Cat(btmAsset, uv(o.Amount), []byte{1}, uv(uint64(len(o.Prog))), o.Prog)
		b = ap(b, []byte{1}, uv(uint64(len(c))), c, []byte{0})
	}
	return b
}

func BtmDigests(ins []BtmIn, outs []BtmOut, tr uint64) []string {
	var spends [][]byte
	mux := uv(uint64(len(ins)))
	for _, in := range ins {
		prev := entry("output1", ref.Cat(in.ID, in.Asset, ref.LE64(in.Amount), ref.LE64(in.Pos), ref.LE64(1), uv(uint64(len(in.Prog))), in.Prog))
		sp := entry("spend1", prev)
		spends = append(spends, sp)
		mux = ap(mux, sp, in.Asset, ref.LE64(in.Amount), ref.LE64(0))
	}
	mid := entry("mux1", ref.Cat(mux, ref.LE64(1), []byte{1, 0x51}))
	hd := ref.Cat(ref.LE64(1), ref.LE64(tr), uv(uint64(len(outs))))
	for i, o := range outs {
		hd = ap(hd, entry("output1", ref.Cat(mid, btmAsset, ref.LE64(o.Amount), ref.LE64(uint64(i)), ref.LE64(1), uv(uint64(len(o.Prog))), o.Prog)))
	}
	txid := entry("txheader", hd)
	var r []string
	for _, s := range spends {
		r = append(r, hx(ref.Sha3_256(ref.Cat(s, txid))))
	}
	return r
}

// BtmWitness of a single-key input
func btmWitness(p SP) []byte { return ref.Cat([]byte{2, 0x40}, p.Sig, []byte{0x20}, p.Pub) }

func btmGen(s Src) *Case {
	ni, no, wide := counts(s, 127)
	test := Dev(s, "testnet", false, true)
	hrp := "bm"
	if test {
		hrp = "tm"
	}
	var amounts []uint64
	for _, v := range U64 {
		if v < 1<<63 {
			amounts = append(amounts, v)
		}
	}
	var ins []BtmIn
	var vins []bytom.Vin
	var ow []*Key
	for i := 0; i < ni; i++ {
		q := sub(s, i, wide)
		l := func(n string) string { return fmt.Sprintf("%s%d", n, i) }
		k := ownerOf(q, Ed, i, ref.Hash160)
		h := NameOf(k, ref.Hash160)
		if Dev(q, l("hash"), "hash160", "ripemd160") == "ripemd160" {
			h = NameOf(k, ref.Ripemd160)
		}
		in := BtmIn{Dev(q, l("id"), IDs(i)...), Dev(q, l("position"), append([]uint64{0}, amounts...)...), Dev(q, l("asset"), append([][]byte{btmAsset}, IDs(5)...)...), Dev(q, l("value"), amounts...), ref.Cat([]byte{0, 20}, h)}
		ins = append(ins, in)
		ow = append(ow, k)
		vins = append(vins, bytom.Vin{SourceID: hx(in.ID), SourcePosition: in.Pos, AssetID: hx(in.Asset), Amount: in.Amount, ControlProgram: hx(in.Prog)})
	}
	var outs []BtmOut
	var vouts []bytom.Vout
	for i := 0; i < no; i++ {
		q := sub(s, i, wide)
		h := Dev(q, fmt.Sprintf("dest%d", i), append(Hashes(i), IDs(i+20)...)...)
		o := BtmOut{ref.Cat([]byte{0, byte(len(h))}, h), Dev(q, fmt.Sprintf("amount%d", i), amounts...)}
		outs = append(outs, o)
		vouts = append(vouts, bytom.Vout{Address: btmAddr(hrp, h), Amount: o.Amount})
	}
	tr := Dev(s, "timerange", append([]uint64{0}, amounts...)...)
	return &Case{Owners: ow, Names: true,
		Create: func() (string, []string, error) {
			e, err := bytom.CreateEmptyRawTransaction(spy.A(vins), spy.A(vouts), tr, test)
			if err != nil {
				return e, nil, err
			}
			hs, err := bytom.CreateRawTransactionHashForSig(e, test)
			var r []string
			for _, h := range hs {
				a := "multisig"
				if h.Normal != nil {
					a = h.Normal.Address
				}
				r = append(r, h.Hash+"@"+a)
			}
			return e, r, err
		},
		Check: func(empty string, dg []string) string {
			if d := diff("the unsigned transaction", strings.ToLower(empty), hx(BtmTx(ins, outs, tr, nil))); d != "" {
				return d
			}
			wd := BtmDigests(ins, outs, tr)
			for i := range wd {
				wd[i] += "@" + btmAddr(hrp, ins[i].Prog[2:])
			}
			return diffAll("digest", dg, wd)
		},
		Combine: func(e string, sp []SP) (bool, string) {
			hs, err := bytom.CreateRawTransactionHashForSig(e, test)
			if err != nil {
				return false, ""
			}
			for i := range sp {
				if i < len(hs) && hs[i].Normal != nil {
					hs[i].Normal.SigPub = bytom.SigPub{Signature: sp[i].Sig, Pubkey: sp[i].Pub}
				} else {
					hs = append(hs, bytom.TxHash{Normal: &bytom.NormalTx{SigPub: bytom.SigPub{Signature: sp[i].Sig, Pubkey: sp[i].Pub}}})
				}
			}
			if len(sp) < len(hs) {
				hs = hs[:len(sp)]
			}
			t, err := bytom.InsertSignatureIntoEmptyTransaction(e, spy.A(hs))
			if err != nil {
				return false, ""
			}
			return bytom.VerifyRawTransaction(t), t
		},
		Verify: bytom.VerifyRawTransaction,
		Want: func(empty string, sp []SP) string {
			var w [][]byte
			for _, p := range sp {
				w = append(w, btmWitness(p))
			}
			return hx(BtmTx(ins, outs, tr, w))
		}}
}

func btmBad(s Src) func() (string, error) {
	prog := hx(ref.Cat([]byte{0, 20}, Hashes(0)[0]))
	vins := []bytom.Vin{{hx(IDs(0)[0]), 0, hx(btmAsset), 1000, prog}, {hx(IDs(1)[0]), 1, hx(btmAsset), 1000, prog}}
	vouts := []bytom.Vout{{btmAddr("bm", Hashes(0)[0]), 5}, {btmAddr("bm", Hashes(1)[0]), 6}}
	tr, test := uint64(0), false
	at := s.Choose("position", 2)
	switch Pick(s, "field", "source", "asset", "program", "address", "amount", "value", "position-number", "timerange", "no-inputs", "no-outputs", "count", "network") {
	case "source":
		vins[at].SourceID = badID(s, "value", vins[at].SourceID)
	case "asset":
		vins[at].AssetID = badID(s, "value", vins[at].AssetID)
	case "program":
		vins[at].ControlProgram = Pick(s, "value", "", "00", prog+"00", prog[:42], "0x"+prog, prog[:43], "0014"+prog[4:6], strings.Repeat("00", 33), strings.Repeat("00", 128), "g"+prog[1:])
	case "address":
		g := vouts[at].Address
		h := Hashes(0)[0]
		vouts[at].Address = badAddr(s, "value", g, btmAddr("tm", h), btmAddr("bc", h), btmAddr("bn", h), btmAddr("bm", h[:19]), btmAddr("bm", ref.Cat(h, h)[:33]), btmAddr("bm", h[:2]), ref.Bech32Raw("bm", append([]byte{1}, ref.To5(h)...), 1), ref.Bech32Raw("bm", append([]byte{17}, ref.To5(h)...), 1), ref.Bech32Raw("bm", append([]byte{0}, ref.To5(h)...), 0x2bc830a3), strings.ToUpper(g[:10])+g[10:])
	case "amount":
		vouts[at].Amount = Pick(s, "value", uint64(1)<<63, 1<<64-1)
	case "value":
		vins[at].Amount = Pick(s, "value", uint64(1)<<63, 1<<64-1)
	case "position-number":
		vins[at].SourcePosition = Pick(s, "value", uint64(1)<<63, 1<<64-1)
	case "timerange":
		tr = Pick(s, "value", uint64(1)<<63, 1<<64-1)
	case "no-inputs":
		vins = Pick(s, "value", []bytom.Vin{}, nil)
	case "no-outputs":
		vouts = Pick(s, "value", []bytom.Vout{}, nil)
	case "count":
		n := Pick(s, "value", 128, 256, 257, 300)
		if at == 0 {
			for len(vins) < n {
				vins = append(vins, vins[0])
			}
		} else {
			for len(vouts) < n {
				vouts = append(vouts, vouts[0])
			}
		}
	case "network":
		test = true
	}
	return func() (string, error) { return bytom.CreateEmptyRawTransaction(vins, vouts, tr, test) }
}

func init() {
	d := &Drv{Name: "hypercash", Curve: K1, Gen: hcGen, Sign: hc.SignTransaction, Bad: hcBad,
		Free: func(e string, p, i int) bool { return p >= 1 && p%2 == 0 }} // fraud proof data: not covered by the digest
	d.Raw = []Entry{combineEntry(d), signEntry(d), {Name: "vinlist", Base: func() []string { e, _, _ := hcGen(Fixed{}).Create(); return []string{e} }, Call: func(a []string) bool { _, err := hc.GetVinList(a[0]); return err == nil }}}
	reg(d)
	d = &Drv{Name: "elastos", Curve: R1, Gen: elaGen, Sign: elastos.SignRawTransaction, Bad: elaBad}
	d.Raw = []Entry{combineEntry(d), signEntry(d)}
	reg(d)
	d = &Drv{Name: "mateverse", Curve: K1, Gen: mateGen, Bad: mateBad, Sign: func(g string, p []byte) ([]byte, error) {
		t, err := mate.SignTransaction(g, p)
		return unhex(t), err
	}}
	d.Raw = []Entry{combineEntry(d), signEntry(d)}
	reg(d)
	d = &Drv{Name: "fiii", Curve: Ed, Gen: fiiiGen, Sign: fiii.SignTransactionMessage, Tampers: fiiiTampers, Bad: fiiiBad}
	d.Raw = []Entry{combineEntry(d), signEntry(d)}
	reg(d)
	d = &Drv{Name: "bytom", Curve: Ed, Gen: btmGen, Bad: btmBad, Sign: func(g string, p []byte) ([]byte, error) {
		t, err := bytom.SignRawTransactionHash(strings.Split(g, "@")[0], p)
		if err != nil {
			return nil, err
		}
		return t.Signature, nil
	}}
	signed := func() []string {
		c := btmGen(Fixed{})
		e, dg, _ := c.Create()
		return []string{c.Want(e, []SP{{craft(c.Owners[0], digestBytes(dg[0]), "plain"), c.Owners[0].Pub}})}
	}
	d.Raw = []Entry{combineEntry(d), signEntry(d),
		{Name: "verify", Base: signed, Call: func(a []string) bool { return bytom.VerifyRawTransaction(a[0]) }},
		{Name: "decode", Base: signed, Call: func(a []string) bool { _, err := bytom.DecodeRawTransaction(unhex(a[0])); return err == nil }},
		{Name: "hashes", Base: signed, Call: func(a []string) bool { _, err := bytom.CreateRawTransactionHashForSig(a[0], false); return err == nil }}}
	reg(d)
}
