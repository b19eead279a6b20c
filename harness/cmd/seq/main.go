//go:build go1.21

// The seq harness decides S01: every operation answers the same whatever was done before it, leaves its arguments
// and the values handed out earlier alone, and keeps nothing that its caller owns.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/blocktree/go-owcdrivers/zzverif/mc"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
	"github.com/blocktree/go-owcdrivers/zzverif/spy"
)

func (c *checkCodec) alpha() string {
	if strings.HasPrefix(c.Name, "ripple") {
		return ref.B58XRP
	}
	return ref.B58
}

func (c *checkCodec) ref(ver, hash []byte) string {
	d := ref.Cat(ver, hash)
	return ref.B58Enc(ref.Cat(d, ref.Checksum4(c.Chk, d)), c.alpha())
}

func (c *b32Codec) encSpy(v int) string {
	return c.Enc([]string{"bc", "tb"}[v], spy.A(fixed(20, byte(v))))
}

func (c *b32Codec) decSpy(v int) ([]byte, error) {
	d := ref.To5(fixed(20, byte(v)))
	if c.Versioned {
		d = append([]byte{0}, d...)
	}
	return c.Dec(ref.Bech32Raw([]string{"bc", "tb"}[v], d, 1))
}

var dir = os.Getenv("SEQ_DIR")
var base []string

func load() {
	loadCorpus(filepath.Join(dir, "corpus"))
	b, err := os.ReadFile(filepath.Join(dir, "base"))
	if err == nil {
		err = json.Unmarshal(b, &base)
	}
	if err != nil {
		panic("mc: " + err.Error())
	}
}

// ---------------------------------------------------------------- child: one history in a fresh process

type problem struct {
	At   int // step
	What string
}

type report struct {
	Steps   int
	Results []string
	Problem *problem
}

// runHistory runs the operations in order. scribble: the caller overwrites everything it owns after each step.
func runHistory(h []int, scribble, keep bool) *report {
	r := &report{}
	l := ops()
	for i, k := range h {
		mc.Entropy("seq")
		spy.On = true
		g := l[k].run()
		spy.On = false
		r.Steps++
		if keep {
			r.Results = append(r.Results, g)
		} else if g != base[k] {
			r.Problem = &problem{i, fmt.Sprintf("the result is\n    %s\n  in a fresh process it is\n    %s", diff(g, base[k]), diff(base[k], g))}
			return r
		}
		if c := spy.Changed(); c != "" {
			r.Problem = &problem{i, "a value the caller owns has changed: " + c}
			return r
		}
		if scribble {
			spy.Scribble()
		} else {
			spy.Forget(30)
		}
	}
	return r
}

// diff is the part of a around the first difference from b.
func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	f, t := i-60, i+200
	if f < 0 {
		f = 0
	}
	if t > len(a) {
		t = len(a)
	}
	return fmt.Sprintf("%q (from position %d)", a[f:t], f)
}

func child(mode string) {
	mc.UseEntropy()
	var h []int
	if err := json.NewDecoder(os.Stdin).Decode(&h); err != nil {
		panic(err)
	}
	loadCorpus(filepath.Join(dir, "corpus"))
	if mode != "keep" {
		load()
	}
	r := runHistory(h, mode == "scribble", mode == "keep")
	json.NewEncoder(os.NewFile(3, "report")).Encode(r)
}

func spawn(h []int, mode string) (*report, error) {
	self, _ := os.Executable()
	r := &report{}
	return r, start(self, []string{"-seqchild", mode}, h, r)
}

// start runs a child: the request goes to its standard input, the report comes from file descriptor 3.
func start(bin string, args []string, h, r interface{}) error {
	c := exec.Command(bin, args...)
	c.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66")
	b, _ := json.Marshal(h)
	c.Stdin = strings.NewReader(string(b))
	var eb strings.Builder
	c.Stderr = &eb
	pr, pw, err := os.Pipe()
	if err != nil {
		return err
	}
	defer pr.Close()
	c.ExtraFiles = []*os.File{pw}
	err = c.Start()
	pw.Close()
	var o []byte
	if err == nil {
		o, _ = io.ReadAll(pr)
		err = c.Wait()
	}
	if err != nil {
		e := eb.String()
		if len(e) > 6000 {
			e = e[:6000]
		}
		return fmt.Errorf("%v: %s", err, e)
	}
	return json.Unmarshal(o, r)
}

// prepare makes the texts and each operation's result in a process that has done nothing else.
func prepare() (string, error) {
	d, err := os.MkdirTemp("", "verif-seq-")
	if err != nil {
		return "", err
	}
	os.Setenv("SEQ_DIR", d)
	dir = d
	self, _ := os.Executable()
	c := exec.Command(self, "-seqcorpus")
	c.Stderr = os.Stderr
	if err := c.Run(); err != nil {
		return d, err
	}
	loadCorpus(filepath.Join(d, "corpus"))
	n := len(ops())
	base = make([]string, n)
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				r, err := spawn([]int{i}, "keep")
				switch {
				case err != nil:
					base[i] = "the process crashed"
				case len(r.Results) == 1:
					base[i] = r.Results[0]
				}
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	b, _ := json.Marshal(base)
	return d, os.WriteFile(filepath.Join(d, "base"), b, 0600)
}

// ---------------------------------------------------------------- scenarios

func opName(i int) string { o := ops()[i]; return o.group + ": " + o.name }

// pkg: the package an operation belongs to
var alias = map[string]string{"wicc": "wayki", "codec aliencoinTransaction": "alien", "codec bitcoincashTransaction": "bch", "codec bitcoinsvTransaction": "bsv",
	"codec btcLikeTxDriver": "like", "codec btcTransaction": "btc", "codec cosmosTransaction": "cosmos", "codec cxcTransaction": "cxc",
	"codec elastosTransaction": "elastos", "codec elastosTransaction.GetProgramHash": "elastos", "codec evaioTransaction": "eva", "codec fiiiTransaction": "fiii",
	"codec filenetTransaction": "filenet", "codec hcTransaction": "hc", "codec hypercashTransaction": "hypercash", "codec omniTransaction": "omni",
	"codec ontologyTransaction": "ontology", "codec owkeychain": "owkeychain", "codec rippleTransaction": "ripple",
	"codec rippleTransaction.GetProgramHash": "ripple", "codec vergeTransaction": "verge", "codec virtualeconomyTransaction": "vsys",
	"codec vollarTransaction": "vollar", "codec waykichainTransaction": "wayki", "codec waykichainTransaction.GetProgramHash": "wayki",
	"codec zencashTransaction": "zen"}

func pkg(o *op) string {
	if a, ok := alias[o.group]; ok {
		return a
	}
	return o.group
}

var members, nears map[string][]int

func group(i int) []int {
	if members == nil {
		members, nears = map[string][]int{}, map[string][]int{}
		for k, o := range ops() {
			if !o.near {
				members[pkg(o)] = append(members[pkg(o)], k)
			}
			if o.near || o.rep {
				nears[pkg(o)] = append(nears[pkg(o)], k)
			}
		}
	}
	if ops()[i].near {
		return nears[pkg(ops()[i])]
	}
	return members[pkg(ops()[i])]
}

var loaded sync.Once

func histories(x *mc.X, hs []int, label string, across bool) {
	modes := []string{"plain", "scribble"}
	if across && !x.Deep {
		modes = modes[:1]
	}
	for _, mode := range modes {
		x.Beat()
		r, err := spawn(hs, mode)
		if err != nil {
			x.Fail("the process crashed in a history of %d operations starting with %s: %v", len(hs), opName(hs[0]), err)
		}
		x.Eval(r.Steps)
		x.Steps(r.Steps - 1)
		x.Step(label, mode, hs, r.Problem == nil)
		if p := r.Problem; p != nil {
			cut := hs[:p.At+1]
			last := cut[len(cut)-1]
			// a shorter history with the same end
			short := cut
		search:
			for n := 0; n < 3; n++ {
				switch n {
				case 0:
					if q, err := spawn([]int{last}, mode); err == nil && q.Problem != nil {
						short, p = []int{last}, q.Problem
						break search
					}
				case 1:
					seen := map[int]bool{}
					for j := len(cut) - 2; j >= 0; j-- {
						if seen[cut[j]] {
							continue
						}
						seen[cut[j]] = true
						x.Beat()
						if q, err := spawn([]int{cut[j], last}, mode); err == nil && q.Problem != nil {
							short, p = []int{cut[j], last}[:q.Problem.At+1], q.Problem
							break search
						}
					}
				}
			}
			var names []string
			for i, k := range short {
				if len(short) > 6 && i < len(short)-6 {
					continue
				}
				names = append(names, opName(k))
			}
			m := ""
			if mode == "scribble" {
				m = " (the caller overwrites its own buffers after each step)"
			}
			x.Fail("after the history of %d operations%s ending in [%s]: %s", len(short), m, strings.Join(names, "; "), p.What)
		}
	}
}

func init() {
	mc.Register(mc.Scenario{Prop: "S01", Name: "pairs-in-a-package", ShardK: 1, Fn: func(x *mc.X) {
		loaded.Do(load)
		a := x.Choose("first", len(ops()))
		x.Note("%s", opName(a))
		h := []int{a, a}
		for _, b := range group(a) {
			h = append(h, b, a)
		}
		histories(x, h, opName(a), false)
	}})
	mc.Register(mc.Scenario{Prop: "S01", Name: "pairs-across-packages", ShardK: 1, Fn: func(x *mc.X) {
		loaded.Do(load)
		var reps []int
		for i, o := range ops() {
			if o.rep {
				reps = append(reps, i)
			}
		}
		a := reps[x.Choose("first", len(reps))]
		x.Note("%s", opName(a))
		h := []int{a}
		for _, b := range reps {
			h = append(h, b, a)
		}
		histories(x, h, opName(a), true)
	}})
	mc.Register(mc.Scenario{Prop: "S01", Name: "triples-in-a-package", OnlyDeep: true, ShardK: 2, Fn: func(x *mc.X) {
		loaded.Do(load)
		a := x.Choose("first", len(ops()))
		x.Note("%s", opName(a))
		g := group(a)
		if len(g) > 120 { // one operation per entry point
			var r []int
			for _, k := range g {
				if ops()[k].rep {
					r = append(r, k)
				}
			}
			g = r
		}
		b := g[x.Choose("second", len(g))]
		x.Note("%s", opName(b))
		var h []int
		for _, c := range g {
			h = append(h, a, b, c)
		}
		histories(x, h, opName(a)+"; "+opName(b), false)
	}})
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "-seqchild" {
		child(os.Args[2])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-seqrace" {
		raceChild()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-seqsched" {
		schedChild()
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-seqcorpus" {
		mc.UseEntropy()
		makeCorpus(filepath.Join(dir, "corpus"))
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-seqops" { // the operations and their results
		d, err := prepare()
		defer os.RemoveAll(d)
		if err != nil {
			panic(err)
		}
		for i := range ops() {
			r := base[i]
			if len(r) > 160 {
				r = r[:160] + "..."
			}
			fmt.Println(i, ops()[i].rep, opName(i), "=>", r)
		}
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-seqtimes" {
		t0 := time.Now()
		loadCorpus(filepath.Join(dir, "corpus"))
		ops()
		fmt.Println("start", time.Since(t0))
		mc.UseEntropy()
		for i, o := range ops() {
			t := time.Now()
			o.run()
			fmt.Fprintln(os.Stderr, time.Since(t).Microseconds(), i, opName(i))
		}
		return
	}
	if dir == "" {
		d, err := prepare()
		code := 2
		if err == nil {
			self, _ := os.Executable()
			c := exec.Command(self, os.Args[1:]...)
			c.Stdout, c.Stderr = os.Stdout, os.Stderr
			c.Run()
			code = c.ProcessState.ExitCode()
		} else {
			fmt.Fprintln(os.Stderr, err)
		}
		os.RemoveAll(d)
		os.Exit(code)
	}
	mc.Main()
	_ = strconv.Itoa
}
