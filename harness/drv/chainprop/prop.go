//go:build go1.21

// Package chainprop holds the scenarios for the drivers described in package chain.
package chainprop

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"

	. "github.com/blocktree/go-owcdrivers/zzverif/drv/chain"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

// scripted answers given labels and leaves the rest at the default.
type scripted map[string]int

func (m scripted) Choose(l string, n int) int {
	if v, ok := m[l]; ok && v < n {
		return v
	}
	return 0
}
func (m scripted) Dev(l string, n int) int   { return m.Choose(l, n) }
func (scripted) Note(string, ...interface{}) {}

// plainSize leaves the number of inputs and outputs at the default.
type plainSize struct{ *mc.X }

func (plainSize) Choose(string, int) int { return 0 }

// Dev: the default, the second and the last alternative
func (p plainSize) Dev(l string, n int) int {
	if n <= 3 {
		return p.X.Dev(l, n)
	}
	return []int{0, 1, n - 1}[p.X.Dev(l, 3)]
}

// thinned: the same for every decision but the number of inputs and outputs
type thinned struct{ *mc.X }

func (p thinned) Dev(l string, n int) int {
	if l == "wide" {
		return p.X.Dev(l, n)
	}
	return plainSize{p.X}.Dev(l, n)
}

var defLens = map[string]int{}

func defaultLen(d *Drv) int {
	if _, ok := defLens[d.Name]; !ok {
		e, _, _ := d.Gen(Fixed{}).Create()
		defLens[d.Name] = len(e)
	}
	return defLens[d.Name]
}

func clip(s string) string {
	if len(s) > 900 {
		return s[:800] + "..." + s[len(s)-100:]
	}
	return s
}

func digest(g string) []byte { b, _ := hex.DecodeString(DigestText(g)); return b }

func pickDrv(x *mc.X, acct bool) *Drv {
	l := List(acct)
	d := l[x.Choose("driver", len(l))]
	x.Note("%s", d.Name)
	return d
}

func create(x *mc.X, d *Drv, c *Case) (string, []string) {
	e, dg, err := c.Create()
	x.Step("create "+d.Name, e, strings.Join(dg, ","), err)
	x.Check(err == nil, "%s refuses a valid request: %v", d.Name, err)
	return e, dg
}

func combine(x *mc.X, d *Drv, c *Case, e string, sp []SP) string {
	cp := make([]SP, len(sp))
	for i := range sp {
		cp[i] = SP{append([]byte{}, sp[i].Sig...), append([]byte{}, sp[i].Pub...)}
	}
	ok, t := c.Combine(e, cp)
	x.Step("combine "+d.Name, ok, t)
	x.Check(ok, "%s refuses correct signatures for %s", d.Name, clip(e))
	for i := range sp {
		x.Check(bytes.Equal(cp[i].Sig, sp[i].Sig) && bytes.Equal(cp[i].Pub, sp[i].Pub), "%s: combining changed the caller's signature or key %d", d.Name, i)
	}
	w := c.Want(e, sp)
	if !strings.HasPrefix(t, "{") {
		t, w = strings.ToLower(t), strings.ToLower(w)
	}
	x.Check(t == w, "%s: the completed transaction is\n   %s\n  the chain's format prescribes\n   %s", d.Name, clip(t), clip(w))
	if c.Verify != nil {
		x.Check(c.Verify(t), "%s does not verify its own completed transaction %s", d.Name, clip(t))
	}
	return t
}

// bases for alterations
var bases = []scripted{{}, {"ins": 1, "outs": 1}, {"ins": 1}, {"outs": 1}, {"wide": 1}}

func signAll(d *Drv, c *Case, dg []string) []SP {
	var sp []SP
	for i, g := range dg {
		sp = append(sp, SP{d.CraftSig(c.Owners[i], digest(g), "plain"), c.Owners[i].Pub})
	}
	return sp
}

func Register(p1, p2 string, acct bool) {
	mc.Register(mc.Scenario{Prop: p1, Name: "create", Quick: 2, Thorough: 3, ShardK: 3, Fn: func(x *mc.X) {
		d := pickDrv(x, acct)
		c := d.Gen(x)
		e, dg := create(x, d, c)
		if m := c.Check(e, dg); m != "" {
			x.Fail("%s: %s", d.Name, m)
		}
		x.Outcome(d.Name)
	}})
	mc.Register(mc.Scenario{Prop: p2, Name: "history", Quick: 1, Thorough: 2, ShardK: 3, Fn: func(x *mc.X) {
		d := pickDrv(x, acct)
		c := d.Gen(x)
		e, dg := create(x, d, c)
		x.Check(len(dg) == len(c.Owners), "%s: %d digests for %d signers", d.Name, len(dg), len(c.Owners))
		var sp []SP
		for i, g := range dg {
			k := c.Owners[i]
			if len(dg) > 8 && i > 1 {
				sp = append(sp, SP{d.CraftSig(k, digest(g), "plain"), k.Pub})
				continue
			}
			priv := append([]byte{}, k.Priv...)
			s, err := d.Sign(DigestText(g), priv)
			x.Step("sign "+d.Name, s, err)
			x.Check(err == nil, "%s cannot sign: %v", d.Name, err)
			x.Check(bytes.Equal(priv, k.Priv), "%s: signing changed the caller's private key", d.Name)
			x.Check(VerifySig(d, k, digest(g), s), "%s: the signature %x does not verify for digest %s and key %x", d.Name, s, g, k.Pub)
			sp = append(sp, SP{s, k.Pub})
		}
		combine(x, d, c, e, sp)
		x.Outcome(d.Name)
	}})
	mc.Register(mc.Scenario{Prop: p2, Name: "values", Quick: 2, Thorough: 3, ShardK: 2, Fn: func(x *mc.X) {
		d := pickDrv(x, acct)
		n := x.Choose("ins", 3)
		w := 0
		if n == 2 {
			w = 1 // three inputs
		}
		c := d.Gen(scripted{"ins": n, "wide": w})
		e, dg := create(x, d, c)
		var sp []SP
		for i, g := range dg {
			shapes := Shapes
			if n == 0 { // costly to find
				shapes = append(append([]string{}, Shapes...), "shorter-s", "high-shorter-s")
			}
			sh := mc.PickDev(x, fmt.Sprintf("value%d", i), shapes...)
			sp = append(sp, SP{d.CraftSig(c.Owners[i], digest(g), sh), c.Owners[i].Pub})
		}
		combine(x, d, c, e, sp)
	}})
	mc.Register(mc.Scenario{Prop: p2, Name: "entropy", ShardK: 2, Fn: func(x *mc.X) {
		d := pickDrv(x, acct)
		k := KeyOf(d.Curve, "signer")
		l := ref.ShortSeedsK1
		if d.Curve == R1 {
			l = ref.ShortSeedsR1
		}
		x.SeedRand(fmt.Sprintf("s%d", mc.Pick(x, "entropy", l...)))
		h := ref.Sha256([]byte("digest"))
		s, err := d.Sign(hex.EncodeToString(h), append([]byte{}, k.Priv...))
		x.Step("sign "+d.Name, s, err)
		x.Check(err == nil && VerifySig(d, k, h, s), "%s: the signature %x does not verify (error %v)", d.Name, s, err)
	}})
	mc.Register(mc.Scenario{Prop: p2, Name: "altered-signature", ShardK: 3, Fn: func(x *mc.X) {
		d := pickDrv(x, acct)
		base := x.Choose("base", len(bases))
		edit := mc.Pick(x, "edit", "sig-byte", "pub-byte", "sig-length", "pub-length", "swap", "drop", "extra", "other-digest", "other-key-pub", "other-key-sig", "foreign", "zero")
		c := d.Gen(bases[base])
		e, dg := create(x, d, c)
		sp := signAll(d, c, dg)
		at := x.Choose("at", len(sp))
		names := c.Names
		switch edit {
		case "sig-byte":
			i := x.Choose("pos", len(sp[at].Sig))
			sp[at].Sig = append([]byte{}, sp[at].Sig...)
			sp[at].Sig[i] ^= mc.Pick(x, "xor", xors(x, base)...)
			if d.FreeSig != nil && d.FreeSig(i) {
				return
			}
		case "pub-byte":
			i := x.Choose("pos", len(sp[at].Pub))
			sp[at].Pub = append([]byte{}, sp[at].Pub...)
			sp[at].Pub[i] ^= mc.Pick(x, "xor", xors(x, base)...)
		case "sig-length":
			n := mc.Pick(x, "length", -1, 0, 1, 31, 32, 33, 63, 64, 65, 66, 96, 128)
			if n == len(sp[at].Sig) {
				return
			}
			sp[at].Sig = resize(sp[at].Sig, n)
		case "pub-length":
			n := mc.Pick(x, "length", -1, 0, 1, 31, 32, 33, 34, 63, 64, 65, 66)
			if n == len(sp[at].Pub) {
				return
			}
			sp[at].Pub = resize(sp[at].Pub, n)
		case "swap":
			if len(sp) < 2 || c.OnlyTx {
				return
			}
			sp[0], sp[1] = sp[1], sp[0]
		case "drop":
			if c.OnlyTx && len(sp) > 1 {
				return
			}
			sp = append(sp[:at:at], sp[at+1:]...)
		case "extra":
			if c.OnlyTx {
				return
			}
			sp = append(sp, sp[at])
		case "other-digest":
			sp[at].Sig = d.CraftSig(c.Owners[at], ref.Sha256(digest(dg[at])), "plain")
		case "other-key-pub":
			sp[at].Pub = KeyOf(d.Curve, "stranger").Pub
		case "other-key-sig":
			sp[at].Sig = d.CraftSig(KeyOf(d.Curve, "stranger"), digest(dg[at]), "plain")
		case "foreign":
			if !names {
				return
			}
			k := KeyOf(d.Curve, "stranger")
			sp[at] = SP{d.CraftSig(k, digest(dg[at]), "plain"), k.Pub}
		case "zero":
			i := x.Choose("part", 3)
			sp[at].Sig = append([]byte{}, sp[at].Sig...)
			for j := range sp[at].Sig {
				if i == 2 || j/32 == i {
					sp[at].Sig[j] = 0
				}
			}
		}
		ok, t := c.Combine(e, sp)
		x.Step("combine altered "+d.Name, ok, t)
		x.Check(!ok, "%s accepts the altered signature set (%s) for %s", d.Name, edit, clip(e))
	}})
	// the transaction names an owner that differs in one byte from the signer, whose signatures are right otherwise
	mc.Register(mc.Scenario{Prop: p2, Name: "near-owner", ShardK: 3, Fn: func(x *mc.X) {
		d := pickDrv(x, acct)
		if d.Name == "ripple" { // an account may sign with a regular key: the signer is named by SigningPubKey
			x.Outcome("signer named by its public key")
			return
		}
		base := x.Choose("base", len(bases)-1)
		c := d.Gen(Twisted{bases[base], x.Choose("pos", 20)})
		if !c.Names {
			x.Outcome("names no owner")
			return
		}
		e, dg, err := c.Create()
		x.Step("create "+d.Name, e, strings.Join(dg, ","), err)
		if err != nil {
			x.Outcome("refused at creation")
			return
		}
		ok, t := c.Combine(e, signAll(d, c, dg))
		x.Step("combine "+d.Name, ok, t)
		x.Check(!ok, "%s completes a transaction with the signature of a key whose hash is not the one it names: %s", d.Name, clip(e))
	}})
	mc.Register(mc.Scenario{Prop: p2, Name: "altered-transaction", ShardK: 3, Fn: func(x *mc.X) {
		d := pickDrv(x, acct)
		base := x.Choose("base", len(bases))
		slice := x.Choose("slice", slices)
		c := d.Gen(bases[base])
		e, dg := create(x, d, c)
		sp := signAll(d, c, dg)
		var t, what string
		if d.Tampers != nil {
			l := d.Tampers(e)
			i := sliced(x, "alteration", slice, len(l))
			if i < 0 {
				return
			}
			x.Note("%s", l[i].Name)
			t, what = l[i].Text, l[i].Name
		} else {
			parts := HexParts(e, 2)
			p := x.Choose("part", len(parts))
			b, _ := hex.DecodeString(e[parts[p][0]:parts[p][1]])
			i := sliced(x, "pos", slice, len(b)+3)
			if i < 0 {
				return
			}
			if d.Free != nil && d.Free(e, p, min(i, len(b)-1)) {
				return
			}
			switch i - len(b) {
			case 0:
				b, what = b[:len(b)-1], "cut by a byte"
			case 1:
				b, what = append(b, 0), "one byte added"
			case 2:
				b, what = append([]byte{b[0]}, b...), "first byte doubled"
			default:
				b[i] ^= mc.Pick(x, "xor", xors(x, base)...)
				what = fmt.Sprintf("byte %d of part %d changed", i, p)
			}
			t = e[:parts[p][0]] + hex.EncodeToString(b) + e[parts[p][1]:]
		}
		ok, s := c.Combine(t, sp)
		x.Step("combine altered "+d.Name, ok, s)
		x.Check(!ok, "%s accepts the signatures of another transaction: %s\n   signed  %s\n   altered %s", d.Name, what, clip(e), clip(t))
	}})
	// the same for every single variation of the request: optional fields, other kinds, other values
	mc.Register(mc.Scenario{Prop: p2, Name: "altered-variant", Quick: 1, Thorough: 1, ShardK: 2, Fn: func(x *mc.X) {
		d := pickDrv(x, acct)
		slice := x.Choose("slice", slices)
		limit := 700
		var src Src = plainSize{x}
		if x.Deep {
			limit, src = 6000, x
		}
		c := d.Gen(src)
		e, dg := create(x, d, c)
		if len(e) > limit {
			x.Outcome("long")
			return
		}
		if !x.Deep && len(e) == defaultLen(d) {
			x.Outcome("another value in the same place")
			return
		}
		var t, what string
		if d.Tampers != nil {
			l := d.Tampers(e)
			i := sliced(x, "alteration", slice, len(l))
			if i < 0 {
				return
			}
			x.Note("%s", l[i].Name)
			t, what = l[i].Text, l[i].Name
		} else {
			parts := HexParts(e, 2)
			p := x.Choose("part", len(parts))
			b, _ := hex.DecodeString(e[parts[p][0]:parts[p][1]])
			i := sliced(x, "pos", slice, len(b))
			if i < 0 || d.Free != nil && d.Free(e, p, i) {
				return
			}
			b[i] ^= 1
			what = fmt.Sprintf("byte %d of part %d changed", i, p)
			t = e[:parts[p][0]] + hex.EncodeToString(b) + e[parts[p][1]:]
		}
		ok, s := c.Combine(t, signAll(d, c, dg))
		x.Step("combine altered "+d.Name, ok, s)
		x.Check(!ok, "%s accepts the signatures of another transaction: %s\n   signed  %s\n   altered %s", d.Name, what, clip(e), clip(t))
	}})
	// and every signature of such a request, also among many
	mc.Register(mc.Scenario{Prop: p2, Name: "altered-signature-variant", Quick: 1, Thorough: 2, ShardK: 3, Fn: func(x *mc.X) {
		d := pickDrv(x, acct)
		edit := mc.Pick(x, "edit", "sig-first", "sig-last", "pub", "swap", "twice", "other-digest", "other-key-sig", "foreign")
		var src Src = thinned{x}
		if x.Deep {
			src = x
		}
		c := d.Gen(src)
		if len(c.Owners) > 8 && edit != "sig-first" && edit != "other-key-sig" && !x.Deep {
			x.Outcome("shown with fewer signers")
			return
		}
		e, dg := create(x, d, c)
		sp := signAll(d, c, dg)
		at := 0
		if n := len(sp); n > 1 && n <= 4 {
			at = x.Choose("at", n)
		} else if n > 4 {
			at = mc.Pick(x, "at", 0, 1, n/2, n-1)
		}
		next := (at + 1) % len(sp)
		switch edit {
		case "sig-first", "sig-last":
			i := 3
			if edit == "sig-last" {
				i = len(sp[at].Sig) - 3
			}
			if d.FreeSig != nil && d.FreeSig(i) {
				return
			}
			sp[at].Sig = append([]byte{}, sp[at].Sig...)
			sp[at].Sig[i] ^= 1
		case "pub":
			sp[at].Pub = append([]byte{}, sp[at].Pub...)
			sp[at].Pub[len(sp[at].Pub)-2] ^= 1
		case "swap":
			if at == next || bytes.Equal(digest(dg[at]), digest(dg[next])) {
				return
			}
			sp[at], sp[next] = SP{sp[next].Sig, sp[at].Pub}, SP{sp[at].Sig, sp[next].Pub}
		case "twice":
			if at == next || !c.Names && bytes.Equal(digest(dg[at]), digest(dg[next])) {
				return
			}
			sp[next] = sp[at]
		case "other-digest":
			sp[at].Sig = d.CraftSig(c.Owners[at], ref.Sha256(digest(dg[at])), "plain")
		case "other-key-sig":
			sp[at].Sig = d.CraftSig(KeyOf(d.Curve, "stranger"), digest(dg[at]), "plain")
		case "foreign":
			if !c.Names {
				return
			}
			k := KeyOf(d.Curve, "stranger")
			sp[at] = SP{d.CraftSig(k, digest(dg[at]), "plain"), k.Pub}
		}
		ok, t := c.Combine(e, sp)
		x.Step("combine altered "+d.Name, ok, t)
		x.Check(!ok, "%s accepts the altered signature set (%s, signer %d) for %s", d.Name, edit, at, clip(e))
	}})
	mc.Register(mc.Scenario{Prop: p2, Name: "altered-completed", ShardK: 3, Fn: func(x *mc.X) {
		var l []*Drv
		for _, d := range List(acct) {
			if d.Gen(Fixed{}).Verify != nil {
				l = append(l, d)
			}
		}
		if len(l) == 0 {
			return
		}
		d := l[x.Choose("driver", len(l))]
		x.Note("%s", d.Name)
		base := x.Choose("base", len(bases))
		slice := x.Choose("slice", slices)
		c := d.Gen(bases[base])
		e, dg := create(x, d, c)
		t := combine(x, d, c, e, signAll(d, c, dg))
		parts := HexParts(t, 2)
		p := x.Choose("part", len(parts))
		b, _ := hex.DecodeString(t[parts[p][0]:parts[p][1]])
		i := sliced(x, "pos", slice, len(b)+2)
		if i < 0 {
			return
		}
		if d.FreeDone != nil && i < len(b) && d.FreeDone(t, i) {
			return
		}
		switch i - len(b) {
		case 0:
			b = b[:len(b)-1]
		case 1:
			b = append(b, 0)
		default:
			b[i] ^= mc.Pick(x, "xor", xors(x, base)...)
		}
		a := t[:parts[p][0]] + hex.EncodeToString(b) + t[parts[p][1]:]
		ok := c.Verify(a)
		x.Step("verify altered "+d.Name, ok)
		x.Check(!ok, "%s verifies the altered transaction\n   %s (was\n   %s)", d.Name, clip(a), clip(t))
	}})
}

// sliced chooses one of n positions; the slice was chosen before the work, so that it is divided among the processes.
const slices = 8

func sliced(x *mc.X, label string, slice, n int) int {
	if slice >= n {
		return -1
	}
	return slice + slices*x.Choose(label, (n-slice+slices-1)/slices)
}

func xors(x *mc.X, base int) []byte {
	if base > 1 && !x.Deep {
		return []byte{1}
	}
	return []byte{1, 0x80, 0xff}
}

func resize(b []byte, n int) []byte {
	if n < 0 {
		return nil
	}
	r := make([]byte, n)
	copy(r, b)
	return r
}
