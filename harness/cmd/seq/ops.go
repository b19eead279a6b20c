//go:build go1.21

package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/blocktree/go-owcdrivers/zzverif/drv/chain"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
	"github.com/blocktree/go-owcdrivers/zzverif/spy"

	. "github.com/blocktree/go-owcdrivers/zzverif/drv/btcfam"
)

// op is one operation with its arguments. Operations of one group share code; rep marks one per entry point.
type op struct {
	group, name string
	rep         bool
	two         bool // among the first two of its entry point
	near        bool // one of a set of calls that differ in a single component: paired with each other and with the rep operations
	f           func() string
}

var opList []*op
var opOnce sync.Once

func ops() []*op {
	opOnce.Do(func() {
		btcOps()
		chainOps()
		helperOps()
		seen := map[string]int{}
		for _, o := range opList {
			k := o.group + " " + strings.Split(o.name, " ")[0]
			o.rep, o.two = seen[k] == 0, seen[k] < 2
			seen[k]++
		}
	})
	return opList
}

func add(group, name string, f func() string) {
	near := strings.Contains(name, " near") || strings.Contains(name, " with ")
	opList = append(opList, &op{group: group, name: name, f: f, near: near})
}

// run executes an operation; a panic is a result like any other (R01 is about those).
func (o *op) run() (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = fmt.Sprint("panic: ", e)
		}
	}()
	return o.f()
}

// res describes results and hands them to the spy.
func res(v ...interface{}) string {
	var b strings.Builder
	for _, x := range v {
		spy.R(x)
		rv := reflect.ValueOf(&x).Elem()
		if e, ok := x.(error); ok && e != nil {
			b.WriteString("error " + e.Error())
		} else {
			b.WriteString(spy.Snap(rv, false))
		}
		b.WriteString(" | ")
	}
	return b.String()
}

// ---------------------------------------------------------------- texts made beforehand, in another process

type text struct {
	E     string
	D, S  []string
	P     []string
	Done  string
	Entry [][]string
}

var corpus map[string]*text

func loadCorpus(f string) {
	b, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, &corpus)
	}
	if err != nil {
		panic(err)
	}
}

// probe records the decisions a generator asks for.
type probe struct {
	set    map[string]int
	labels *[]string
	n      map[string]int
}

func (p probe) Choose(l string, n int) int {
	if _, ok := p.n[l]; !ok {
		p.n[l] = n
		*p.labels = append(*p.labels, l)
	}
	if v, ok := p.set[l]; ok && v < n {
		return v
	}
	return 0
}
func (p probe) Dev(l string, n int) int   { return p.Choose(l, n) }
func (probe) Note(string, ...interface{}) {}

func newProbe(set map[string]int) probe { return probe{set, new([]string), map[string]int{}} }

// settings: the default request, and those that differ from it in one decision (first and last alternative).
func settings(d *chain.Drv) []map[string]int {
	p := newProbe(nil)
	d.Gen(p)
	r := []map[string]int{nil}
	for _, l := range *p.labels {
		n := p.n[l]
		if n > 1 {
			r = append(r, map[string]int{l: 1})
		}
		if n > 2 && !wide(l) {
			r = append(r, map[string]int{l: n - 1})
		}
	}
	return r
}

func wide(l string) bool { return l == "ins" || l == "outs" || l == "n" || l == "counts" }

func setName(m map[string]int) string {
	var k []string
	for l, v := range m {
		k = append(k, fmt.Sprintf("%s=%d", l, v))
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

// makeCorpus runs in a process of its own.
func makeCorpus(f string) {
	c := map[string]*text{}
	for _, d := range chain.Drvs {
		for _, m := range settings(d) {
			k := d.Gen(newProbe(m))
			if len(k.Owners) > 4 {
				continue
			}
			e, dg, err := k.Create()
			if err != nil {
				continue
			}
			t := &text{E: e, D: dg}
			var sp []chain.SP
			for i, o := range k.Owners {
				if i >= len(dg) {
					break
				}
				h, _ := hex.DecodeString(chain.DigestText(dg[i]))
				s := d.CraftSig(o, h, "plain")
				t.S, t.P = append(t.S, hx(s)), append(t.P, hx(o.Pub))
				sp = append(sp, chain.SP{Sig: s, Pub: o.Pub})
			}
			_, t.Done = k.Combine(e, sp)
			if m == nil {
				for _, r := range d.Raw {
					t.Entry = append(t.Entry, r.Base())
				}
			}
			c[d.Name+"/"+setName(m)] = t
		}
	}
	b, _ := json.Marshal(c)
	if err := os.WriteFile(f, b, 0600); err != nil {
		panic(err)
	}
}

// timed drivers put the current time or a nonce in what they create: the reference model judges it.
var timed = map[string]bool{"verge": true, "bigbang": true, "fiii": true, "vsys": true, "filenet": true, "ontology": true}

func unhx(s string) []byte { b, _ := hex.DecodeString(s); return b }

func chainOps() {
	for _, d := range chain.Drvs {
		d := d
		nk := 0
		for _, m := range settings(d) {
			m := m
			t := corpus[d.Name+"/"+setName(m)]
			if t == nil {
				continue
			}
			add(d.Name, "create "+setName(m), func() string {
				k := d.Gen(newProbe(m))
				e, dg, err := k.Create()
				if timed[d.Name] {
					if err != nil {
						return res(err)
					}
					return res(k.Check(e, dg))
				}
				return res(e, dg, err)
			})
			add(d.Name, "combine "+setName(m), func() string {
				k := d.Gen(newProbe(m))
				var sp []chain.SP
				for i := range t.S {
					sp = append(sp, chain.SP{Sig: unhx(t.S[i]), Pub: unhx(t.P[i])})
				}
				ok, s := k.Combine(t.E, sp)
				return res(ok, s)
			})
			if len(t.S) > 1 || nk == 0 {
				// signatures in the wrong places
				add(d.Name, "combine wrong "+setName(m), func() string {
					k := d.Gen(newProbe(m))
					var sp []chain.SP
					n := len(t.S)
					for i := range t.S {
						s := unhx(t.S[n-1-i])
						if n == 1 {
							s[len(s)-3] ^= 1
						}
						sp = append(sp, chain.SP{Sig: s, Pub: unhx(t.P[i])})
					}
					ok, s := k.Combine(t.E, sp)
					return res(ok, s)
				})
			}
			if nk < 3 && len(t.D) > 0 {
				nk++
				kk := nk
				add(d.Name, "sign "+setName(m), func() string {
					g := chain.DigestText(t.D[0])
					key := d.Gen(newProbe(m)).Owners[0]
					if kk == 2 {
						key = chain.KeyN(d.Curve, 7)
					}
					s, err := d.Sign(g, spy.A(append([]byte{}, key.Priv...)))
					return res(s, err)
				})
			}
			if m == nil && len(t.D) > 0 {
				add(d.Name, "sign key", func() string {
					s, err := d.Sign(chain.DigestText(t.D[0]), spy.A(append([]byte{}, chain.KeyN(d.Curve, 8).Priv...)))
					return res(s, err)
				})
				add(d.Name, "combine later", func() string {
					k := d.Gen(newProbe(m))
					var sp []chain.SP
					for i := range t.S {
						h, _ := hex.DecodeString(chain.DigestText(t.D[i]))
						sp = append(sp, chain.SP{Sig: d.CraftSig(k.Owners[i], h, "high-r"), Pub: unhx(t.P[i])})
					}
					ok, s := k.Combine(t.E, sp)
					return res(ok, s)
				})
			}
			if m == nil {
				for i, r := range d.Raw {
					if i >= len(t.Entry) || r.Name == "combine" || r.Name == "sign" {
						continue
					}
					r, a := r, t.Entry[i]
					add(d.Name, r.Name+" ok", func() string { return res(r.Call(append([]string{}, a...))) })
					if len(a) > 0 && len(a[0]) > 6 {
						add(d.Name, r.Name+" bad", func() string {
							b := append([]string{}, a...)
							b[0] = b[0][:len(b[0])-6]
							return res(r.Call(b))
						})
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- the Bitcoin family

func btcOps() {
	for _, a := range All {
		a := a
		for ni, n := range a.Nets {
			for ki, kind := range addrKinds(a, n) {
				if ni > 0 && ki > 0 && kind != "wpkh" {
					continue
				}
				n, kind, ki := n, kind, ki
				add(a.Name, fmt.Sprintf("create %s %s", n.Name, kind), func() string {
					r := &Req{Net: n, Lock: uint32(ki), Repl: ki == 1, BlockHash: strings.Repeat("ab", 32), BlockHeight: 654321}
					for i := 0; i <= ki; i++ {
						r.Ins = append(r.Ins, Vin{hx(txid(i)), uint32(i)})
						ad, _ := address(n, kind, ref.Sha256([]byte{byte(i)}))
						r.Outs = append(r.Outs, Vout{ad, uint64(1000 + i)})
					}
					if a.NeedsOmni || (a.HasOmni && ki == 1) {
						r.Omni = &Omni{TxType: 0, PropertyId: 31, Amount: 77}
					}
					if a.Cxc && ki == 1 {
						ad, _ := address(n, kind, ref.Sha256([]byte{9}))
						r.Assets = []Asset{{hx(txid(5))[:32], ad, 55}, {hx(txid(6))[:32], ad, 56}}
					}
					return res(a.Create(r))
				})
			}
		}
		for v := 0; v < 6; v++ {
			v := v
			n := a.Nets[0]
			add(a.Name, fmt.Sprintf("create near %d", v), func() string {
				r := &Req{Net: n, Lock: 7, BlockHash: strings.Repeat("ab", 32), BlockHeight: 654321}
				id, h, h2 := txid(20), ref.Sha256([]byte{20}), ref.Sha256([]byte{21})
				o, amt := uint32(1), uint64(1000)
				switch v {
				case 1:
					id[0] ^= 1
				case 2:
					h2[19] ^= 1
				case 3:
					o++
				case 4:
					amt++
				case 5:
					r.Lock++
				}
				r.Ins = []Vin{{hx(txid(19)), 0}, {hx(id), o}}
				a1, _ := address(n, addrKinds(a, n)[0], h)
				a2, _ := address(n, addrKinds(a, n)[0], h2)
				r.Outs = []Vout{{a1, 999}, {a2, amt}}
				if a.NeedsOmni {
					r.Omni = &Omni{TxType: 0, PropertyId: 31, Amount: 77}
				}
				return res(a.Create(r))
			})
		}
		for ci, c := range combos(a, true) {
			c, ci := c, ci
			var sp []*spend
			for i, k := range c.kinds {
				if k == "multi" {
					sp = append(sp, newSpend(a, k, c.seg, uint64(100000+i), 2, ordinary[3*i], ordinary[3*i+1], ordinary[3*i+2]))
				} else {
					sp = append(sp, newSpend(a, k, c.seg, uint64(100000+i), 0, ordinary[i]))
				}
			}
			t := baseTx(a, len(sp), 2)
			empty := hx(t.Bytes())
			hashed := sync.OnceValue(func() []Hash {
				var hs []Hash
				for i, s := range sp {
					g := digest(a, t, i, s)
					h := Hash{Hash: hx(g), SigType: a.SigType}
					if s.kind == "multi" {
						h.NoNormal, h.N = true, byte(s.m)
						for j, k := range s.keys {
							m := MSig{Pubkey: hx(k.pub), SigType: a.SigType}
							if j < s.m {
								m.Sig, m.Pub = ref.FastSign(k.d, nonceN(i*16+j), g), k.pub
							}
							h.Multi = append(h.Multi, m)
						}
					} else {
						h.Sig, h.Pub = ref.FastSign(s.keys[0].d, nonceN(i), g), s.keys[0].pub
					}
					hs = append(hs, h)
				}
				return hs
			})
			text := sync.OnceValue(func() string {
				signed := baseTx(a, len(sp), 2)
				signAllRef(a, signed, sp)
				return hx(signed.Bytes())
			})
			u := unlocks(a, sp)
			tag := fmt.Sprintf(" %s/%v", strings.Join(c.kinds, "+"), c.seg)
			n := a.Nets[0]
			add(a.Name, "hashes"+tag, func() string { return res(a.Hashes(empty, u, c.seg, n)) })
			if len(a.Nets) > 1 {
				add(a.Name, "hashes net"+tag, func() string { return res(a.Hashes(empty, u, c.seg, a.Nets[1])) })
			}
			add(a.Name, "insert"+tag, func() string { return res(a.Insert(empty, hashed(), u, c.seg)) })
			add(a.Name, "verify"+tag, func() string { return res(a.Verify(text(), u, c.seg, n)) })
			other := func(what string) []Unlock {
				v := append([]Unlock{}, u...)
				l := len(v) - 1
				if what == "amount" {
					v[l].Amount += 7
				} else {
					o := newSpend(a, sp[l].kind, c.seg, 1, 2, ordinary[9], ordinary[10], ordinary[11])
					v[l].Lock, v[l].Redeem = hx(o.lock), hx(o.redeem)
				}
				return v
			}
			for _, w := range []string{"amount", "lock"} {
				w := w
				add(a.Name, "hashes "+w+tag, func() string { return res(a.Hashes(empty, other(w), c.seg, n)) })
				if ci < 4 {
					add(a.Name, "verify "+w+tag, func() string { return res(a.Verify(text(), other(w), c.seg, n)) })
				}
			}
			// transactions that differ from this one in a single field
			if ci == 0 || len(c.kinds) > 1 && c.kinds[1] != "multi" || c.seg && c.kinds[0] == "native" {
				for _, w := range []string{"nothing", "value", "script", "locktime", "sequence", "vout", "txid"} {
					v := baseTx(a, len(sp), 2)
					li, lo := len(v.In)-1, len(v.Out)-1
					switch w {
					case "value":
						v.Out[lo].Value++
					case "script":
						v.Out[lo].Script = ref.Cat(v.Out[lo].Script)
						v.Out[lo].Script[4] ^= 1
					case "locktime":
						v.Lock = 500000
					case "sequence":
						v.In[li].Seq--
					case "vout":
						v.In[li].Vout += 5
					case "txid":
						v.In[li].TxID = txid(8)
					}
					vt := hx(v.Bytes())
					add(a.Name, "hashes with "+w+tag, func() string { return res(a.Hashes(vt, u, c.seg, n)) })
					vd := sync.OnceValue(func() string {
						signAllRef(a, v, sp)
						return hx(v.Bytes())
					})
					if w == "nothing" || w == "value" || w == "txid" {
						add(a.Name, "verify with "+w+tag, func() string { return res(a.Verify(vd(), u, c.seg, n)) })
						add(a.Name, "insert with "+w+tag, func() string { return res(a.Insert(vt, hashed(), u, c.seg)) })
					}
				}
			}
			add(a.Name, "insert later"+tag, func() string {
				l := append([]Hash{}, hashed()...)
				k := len(l) - 1
				if l[k].NoNormal {
					l[k].Multi = append([]MSig{}, l[k].Multi...)
					l[k].Multi[0].Sig = ref.FastSign(sp[k].keys[0].d, nonceN(99), digest(a, t, k, sp[k]))
				} else {
					l[k].Sig = ref.FastSign(sp[k].keys[0].d, nonceN(99), digest(a, t, k, sp[k]))
				}
				return res(a.Insert(empty, l, u, c.seg))
			})
			add(a.Name, "verify wrong"+tag, func() string {
				v := append([]Unlock{}, u...)
				v[0].Amount++
				o := newSpend(a, sp[0].kind, c.seg, 1, 2, ordinary[9], ordinary[10], ordinary[11])
				v[0].Lock, v[0].Redeem = hx(o.lock), hx(o.redeem)
				return res(a.Verify(text(), v, c.seg, n))
			})
			add(a.Name, "decode"+tag, func() string {
				v, err := a.Decode(unhx(text()), c.seg)
				return res(v, err)
			})
			add(a.Name, "decode cut"+tag, func() string {
				v, err := a.Decode(unhx(text())[:len(text())/2-9], c.seg)
				return res(v, err)
			})
			if ci < 2 {
				add(a.Name, "sign"+tag, func() string { return res(a.Sign(hashed()[0].Hash, sp[0].keys[0].priv())) })
				add(a.Name, "sign key"+tag, func() string { return res(a.Sign(hashed()[0].Hash, ordinary[7].priv())) })
			}
			if a.SignAll != nil && c.kinds[0] != "multi" {
				add(a.Name, "signall"+tag, func() string {
					var k [][]byte
					for _, s := range sp {
						k = append(k, s.keys[0].priv())
					}
					return res(a.SignAll(empty, u, k))
				})
			}
		}
		if !a.Zen {
			for v := 0; v < 4; v++ {
				v := v
				seg := segChoices(a)[v%len(segChoices(a))]
				add(a.Name, fmt.Sprintf("multi %d", v), func() string {
					p := [][]byte{append([]byte{}, ordinary[v/2].pub...), append([]byte{}, ordinary[2].pub...), append([]byte{}, ordinary[3].pub...)}
					return res(a.Multi(byte(1+v/2), p, seg, a.Nets[v%len(a.Nets)]))
				})
				add(a.Name, fmt.Sprintf("multi near %d", v), func() string {
					p := [][]byte{append([]byte{}, ordinary[0].pub...), append([]byte{}, ordinary[2].pub...), append([]byte{}, ordinary[3].pub...)}
					m := 2
					switch v {
					case 1:
						p[2] = append([]byte{}, ordinary[4].pub...)
					case 2:
						m = 3
					case 3:
						p[1], p[2] = p[2], p[1]
					}
					return res(a.Multi(byte(m), p, segChoices(a)[0], a.Nets[0]))
				})
			}
		}
	}
}
