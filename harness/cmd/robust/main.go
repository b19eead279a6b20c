//go:build go1.21

// R01/R02: every driver's entry points under malformed arguments and impossible requests.
package main

import (
	"encoding/hex"
	"fmt"
	"regexp"
	"runtime/metrics"
	"strings"
	"sync"

	"github.com/blocktree/go-owcdrivers/zzverif/drv/chain"
	"github.com/blocktree/go-owcdrivers/zzverif/mc"
)

func main() { mc.Main() }

// target is an entry point: valid text arguments and the call, which reports whether they were accepted.
type target struct {
	drv, name string
	base      []string
	call      func(a []string) bool
}

var tOnce sync.Once
var tAll []*target

func targets() []*target {
	tOnce.Do(func() {
		for _, d := range chain.Drvs {
			d := d
			for b, sc := range []script{{}, {"ins": 1, "outs": 1}} {
				sc := sc
				c := d.Gen(sc)
				e, dg, err := c.Create()
				if err != nil {
					continue // U01/T01 report that
				}
				a := []string{e}
				for i, g := range dg {
					if i >= len(c.Owners) {
						break
					}
					h, _ := hex.DecodeString(chain.DigestText(g))
					a = append(a, hx(d.CraftSig(c.Owners[i], h, "plain")), hx(c.Owners[i].Pub))
				}
				tAll = append(tAll, &target{d.Name, fmt.Sprintf("combine%d", b+1), a, func(a []string) bool {
					var sp []chain.SP
					for i := 1; i+1 < len(a); i += 2 {
						sp = append(sp, chain.SP{Sig: bytesOf(a[i]), Pub: bytesOf(a[i+1])})
					}
					ok, _ := d.Gen(sc).Combine(a[0], sp)
					return ok
				}})
			}
			for _, r := range d.Raw {
				if r.Name == "combine" {
					continue
				}
				tAll = append(tAll, &target{d.Name, r.Name, r.Base(), r.Call})
			}
		}
		tAll = append(tAll, btcTargets()...)
		tAll = append(tAll, textTargets()...)
	})
	return tAll
}

type script map[string]int

func (m script) Choose(l string, n int) int {
	if v, ok := m[l]; ok && v < n {
		return v
	}
	return 0
}
func (m script) Dev(l string, n int) int   { return m.Choose(l, n) }
func (script) Note(string, ...interface{}) {}

func bytesOf(s string) []byte {
	if s == "nil" {
		return nil
	}
	b, _ := hex.DecodeString(s)
	if b == nil {
		b = []byte{}
	}
	return b
}

var allocs = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocs)
	return allocs[0].Value.Uint64()
}

// run calls a target; a panic or crash is caught by the explorer, memory is watched here.
func run(x *mc.X, t *target, a []string) bool {
	n := 0
	for _, s := range a {
		n += len(s)
	}
	m := allocated()
	ok := t.call(append([]string{}, a...))
	m = allocated() - m
	x.Step(t.drv+" "+t.name, ok, strings.Join(a, ","))
	x.Check(m < 64<<20+uint64(n)*20000, "%s %s allocates %d bytes for %d bytes of arguments", t.drv, t.name, m, n)
	if ok {
		x.Outcome("accepted")
	} else {
		x.Outcome("refused")
	}
	return ok
}

func pickTarget(x *mc.X) *target {
	l := targets()
	t := l[x.Choose("entry", len(l))]
	x.Note("%s.%s", t.drv, t.name)
	return t
}

var consts = []string{"", "0", "00", "ff", "zz", "nil", "{}", "null", "[]", `"x"`, " ", "-1", "0x00", strings.Repeat("f", 20000), strings.Repeat("0", 20001), strings.Repeat("[", 300), "é", "\x00\xff", strings.Repeat("00", 20), strings.Repeat("00", 32), strings.Repeat("ff", 33), strings.Repeat("00", 64), strings.Repeat("ff", 64), strings.Repeat("02", 33), strings.Repeat("00", 65)}

var token = regexp.MustCompile(`"[^"]*"|-?[0-9]+|null|true|\[[^\[\]]*\]|\{[^{}]*\}`)

var tokens = []string{"null", "-1", "1e999", `""`, "[]", "{}", "true", "18446744073709551616", "0.5", `"zz"`, "", `"` + strings.Repeat("9", 400) + `"`, "[[]]", "[null]"}

func isHex(s string) bool {
	_, err := hex.DecodeString(s)
	return err == nil && len(s) > 0
}

func init() {
	mc.Register(mc.Scenario{Prop: "R01", Name: "arguments", Quick: 2, Thorough: 3, ShardK: 2, Fn: func(x *mc.X) {
		t := pickTarget(x)
		a := append([]string{}, t.base...)
		for i := range a {
			if c := mc.PickDev(x, fmt.Sprintf("arg%d", i), append([]string{"valid"}, consts...)...); c != "valid" {
				a[i] = c
			}
		}
		run(x, t, a)
	}})
	// the list of arguments itself: signatures left out or added
	mc.Register(mc.Scenario{Prop: "R01", Name: "counts", ShardK: 2, Fn: func(x *mc.X) {
		t := pickTarget(x)
		if !strings.HasPrefix(t.name, "combine") {
			return
		}
		n := x.Choose("signatures", 6)
		a := t.base[:1:1]
		for i := 0; i < n; i++ {
			j := 1 + 2*(i%((len(t.base)-1)/2))
			a = append(a, t.base[j], t.base[j+1])
		}
		run(x, t, a)
	}})
	// a length or count field made large, with the text ending early
	mc.Register(mc.Scenario{Prop: "R01", Name: "length-and-cut", ShardK: 2, Fn: func(x *mc.X) {
		t := pickTarget(x)
		a := append([]string{}, t.base...)
		if !isHex(a[0]) || len(a[0]) < 40 {
			return
		}
		b, _ := hex.DecodeString(a[0])
		p := x.Choose("pos", len(b))
		b[p] = mc.Pick(x, "to", byte(0), 1, 0xfd, 0xfe, 0xff)
		var cuts []int
		for c := p + 1; c < len(b); c++ {
			if x.Deep || c <= p+12 || c > len(b)-3 {
				cuts = append(cuts, c)
			}
		}
		if len(cuts) == 0 {
			return
		}
		a[0] = hx(b[:cuts[x.Choose("cut", len(cuts))]])
		run(x, t, a)
	}})
	mc.Register(mc.Scenario{Prop: "R01", Name: "text", ShardK: 4, Fn: func(x *mc.X) {
		t := pickTarget(x)
		a := append([]string{}, t.base...)
		i := x.Choose("arg", len(a))
		s := a[i]
		kinds := []string{"const", "extend"}
		if s != "" {
			kinds = append(kinds, "cut", "behead")
		}
		parts := chain.HexParts(s, 8)
		if len(parts) > 0 {
			kinds = append(kinds, "byte", "insert", "drop")
		}
		if s != "" && !isHex(s) {
			kinds = append(kinds, "char")
		} else if s != "" {
			kinds = append(kinds, "nonhex")
		}
		if strings.HasPrefix(s, "{") {
			kinds = append(kinds, "token")
		}
		rep := []byte{0, 1, 0x80, 0xfd, 0xff}
		if x.Deep {
			rep = []byte{0, 1, 2, 0x14, 0x20, 0x21, 0x4c, 0x4d, 0x4e, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff}
		}
		if !x.Deep && strings.Contains(t.name, "multi+multi") {
			return
		}
		kind := mc.Pick(x, "kind", kinds...)
		switch kind {
		case "const":
			s = mc.Pick(x, "value", consts...)
		case "cut":
			s = s[:x.Choose("length", len(s))]
		case "behead":
			n := len(s)
			if isHex(s) {
				n /= 2
				s = s[2*x.Choose("from", n):]
			} else {
				s = s[x.Choose("from", n):]
			}
		case "extend":
			s += mc.Pick(x, "with", "0", "00", "01", "ff", "zz", strings.Repeat("ff", 9), strings.Repeat("00", 300), s)
		case "byte", "insert", "drop":
			var pos []int
			for _, p := range parts {
				for j := p[0]; j < p[1]; j += 2 {
					pos = append(pos, j)
				}
			}
			p := pos[x.Choose("pos", len(pos))]
			switch kind {
			case "byte":
				s = s[:p] + hx([]byte{mc.Pick(x, "to", rep...)}) + s[p+2:]
			case "insert":
				s = s[:p] + mc.Pick(x, "bytes", "00", "ff", "feffffff7f", "ffffffffffffffffff") + s[p:]
			case "drop":
				s = s[:p] + s[p+2:]
			}
		case "char":
			p := x.Choose("pos", len(s))
			s = s[:p] + mc.Pick(x, "to", "", "0", "9", "z", " ", "-", `"`, "{", "}", "[", ",", ":", "\x00", "\xff") + s[p+1:]
		case "nonhex":
			p := x.Choose("pos", len(s))
			s = s[:p] + "g" + s[p+1:]
		case "token":
			l := token.FindAllStringIndex(s, -1)
			p := l[x.Choose("token", len(l))]
			s = s[:p[0]] + mc.Pick(x, "value", tokens...) + s[p[1]:]
		}
		a[i] = s
		run(x, t, a)
	}})
	// two places at once
	mc.Register(mc.Scenario{Prop: "R01", Name: "two-bytes", OnlyDeep: true, ShardK: 2, Fn: func(x *mc.X) {
		t := pickTarget(x)
		a := append([]string{}, t.base...)
		if !isHex(a[0]) || len(a[0]) < 40 || len(a[0]) > 700 {
			return
		}
		b, _ := hex.DecodeString(a[0])
		p := x.Choose("pos", len(b)-1)
		q := p + 1 + x.Choose("pos2", min(len(b)-1-p, 40))
		b[p] = mc.Pick(x, "to", byte(0), 0xfd, 0xff)
		b[q] = mc.Pick(x, "to2", byte(0), 0xfe, 0xff)
		a[0] = hx(b)
		run(x, t, a)
	}})
}
