//go:build go1.21

package chain

import (
	"fmt"

	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

type uin struct {
	id   []byte // as shown
	vout uint32
	key  *Key
	lock []byte
	kind string
}

type uout struct {
	kind   string
	h      []byte
	amount uint64
}

// counts: 1..2 inputs and outputs, three of them,, or the wide shapes around the one-byte count limit.
func counts(s Src, limit int) (int, int, bool) {
	w := [][2]int{{0, 0}, {3, 1}, {1, 3}, {3, 3}, {127, 1}, {1, 127}, {128, 2}, {2, 128}, {252, 1}, {1, 252}, {253, 2}, {2, 253}, {256, 1}, {1, 256}, {515, 1}, {1, 515}}
	var ok [][2]int
	for _, p := range w {
		if p[0] <= limit && p[1] <= limit {
			ok = append(ok, p)
		}
	}
	if p := Dev(s, "wide", ok...); p[0] > 0 {
		return p[0], p[1], p[0]+p[1] > 6
	}
	return 1 + s.Choose("ins", 2), 1 + s.Choose("outs", 2), false
}

type quiet struct{ Src }

func (quiet) Choose(string, int) int      { return 0 }
func (quiet) Dev(string, int) int         { return 0 }
func (quiet) Note(string, ...interface{}) {}

func sub(s Src, i int, wide bool) Src {
	if wide && i > 0 {
		return quiet{s}
	}
	return s
}

// specialKeys: owners with awkward key or hash bytes.
func ownerOf(s Src, curve, i int, hash func([]byte) []byte) *Key {
	k := ownerKey(s, curve, i, hash)
	if t := twistOf(s); t > 0 {
		c := *k
		c.twist = t
		k = &c
	}
	return k
}

func ownerKey(s Src, curve, i int, hash func([]byte) []byte) *Key {
	switch Dev(s, fmt.Sprintf("owner%d", i), "own", "same-as-first", "hash-00-first", "hash-00-last", "pub-02", "pub-03", "pub-x-00") {
	case "same-as-first":
		return KeyN(curve, 0)
	case "hash-00-first":
		return Special(curve, "h00-"+fmt.Sprintf("%x", hash(nil)[:2]), func(k *Key) bool { return hash(k.Pub)[0] == 0 })
	case "hash-00-last":
		return Special(curve, "h00l-"+fmt.Sprintf("%x", hash(nil)[:2]), func(k *Key) bool { h := hash(k.Pub); return h[len(h)-1] == 0 })
	case "pub-02":
		return Special(curve, "02", func(k *Key) bool { return k.Pub[0] == 2 })
	case "pub-03":
		return Special(curve, "03", func(k *Key) bool { return k.Pub[0] == 3 })
	case "pub-x-00":
		if curve == Ed {
			return Special(curve, "00", func(k *Key) bool { return k.Pub[0] == 0 || k.Pub[31] == 0 })
		}
		return Special(curve, "x00", func(k *Key) bool { return k.Pub[1] == 0 })
	}
	return KeyN(curve, i%7)
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func diff(what, got, want string) string {
	if got == want {
		return ""
	}
	c := func(s string) string {
		if len(s) > 1600 {
			return s[:1500] + "..." + s[len(s)-100:]
		}
		return s
	}
	return fmt.Sprintf("%s is\n   %s\n  the chain's format prescribes\n   %s", what, c(got), c(want))
}

func diffAll(what string, got, want []string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d %ss, want %d", len(got), what, len(want))
	}
	for i := range got {
		if d := diff(fmt.Sprintf("%s %d", what, i), got[i], want[i]); d != "" {
			return d
		}
	}
	return ""
}

// scriptSig of a pay-to-pubkey-hash spend, with its length
func p2pkhSig(sp SP) []byte {
	d := ref.Cat(ref.EncDER(sp.Sig), []byte{1})
	b := ref.Cat([]byte{byte(len(d))}, d, []byte{byte(len(sp.Pub))}, sp.Pub)
	return ref.Cat([]byte{byte(len(b))}, b)
}

// ap appends in place
func ap(b []byte, parts ...[]byte) []byte {
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}
