package zzverif

import (
	"fmt"
	"io"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	merge "github.com/tylantz/go-tailwind-merge"
	"pgregory.net/rapid"
)

func init() {
	register("C13",
		"some key is read after it was set, and the cache was cleared or the key set again in between; or operations of different goroutines overlap",
		genCacheOps, checkCacheOps)
	register("C14",
		"a merge overlaps with the adding of rules that change its result",
		genParallel, checkParallel)
}

// C13

type cacheOp struct {
	Op string `json:"op"` // get, set, clear, and fill, which sets many keys
	K  string `json:"k"`
	V  string `json:"v,omitempty"`
	On int    `json:"on,omitempty"`    // which of the caches
	Y  int    `json:"yield,omitempty"` // how long to hang around before
	N  int    `json:"n,omitempty"`     // how many keys to set
}

// filled is the i-th key that a fill operation sets. Some keys differ in their middle or at their beginning only.
func (o cacheOp) filled(i int) string {
	switch i % 3 {
	case 0:
		return o.K + strconv.Itoa(i)
	case 1:
		return strconv.Itoa(i) + o.K
	default:
		return o.K + strconv.Itoa(i) + o.K
	}
}

type cacheOpsCase struct {
	Seq []cacheOp   `json:"seq"`
	Par [][]cacheOp `json:"par"`
}

var cacheKeys = []string{"", "a", "b", "a b", "b a", "a  b", " a", "A", "a\x00b", "é", "\xff", "p-1 p-2", "p-1 p-2 ", "m-1"}

func genCacheOp(t *rapid.T, keys []string, n *int) cacheOp {
	o := cacheOp{Op: pick(t, "op", []string{"get", "get", "get", "set", "set", "set", "clear"}), K: pick(t, "key", keys)}
	if o.Op == "set" {
		*n++
		o.V = fmt.Sprintf("v%d", *n)
		if chance(t, "odd", 15) {
			o.V = pick(t, "oddValue", []string{"", "a", " ", "\x00"})
		}
	}
	if o.Op == "clear" {
		o.K = ""
	}
	return o
}

func genCacheOps(t *rapid.T) cacheOpsCase {
	var c cacheOpsCase
	n := 0
	all := cacheKeys
	if chance(t, "collision", 15) {
		// the two keys that have the same hash, with something around them
		before, after := pick(t, "before", []string{"", "", "p-1 "}), pick(t, "after", []string{"", " p-1"})
		all = sample(t, "few", cacheKeys, 3)
		for _, k := range pick(t, "colliding", collisions) {
			all = append(all, before+k+after)
		}
	}
	for i := between(t, "nSeq", 10, 60); i > 0; i-- {
		o := genCacheOp(t, all, &n)
		o.On = uniform(t, "on", 2)
		if o.Op == "clear" && chance(t, "noClear", 50) {
			o.Op = "get"
		}
		c.Seq = append(c.Seq, o)
	}
	if chance(t, "fill", 6) {
		// long keys and values, and many keys
		o := cacheOp{Op: "fill", On: uniform(t, "on", 2), K: strings.Repeat(pick(t, "part", []string{"x", " p-1", "é", "\x00"}), between(t, "len", 0, 40)), V: "w"}
		switch {
		case chance(t, "huge", 5):
			o.N = between(t, "nHuge", 50000, 150000)
		case chance(t, "large", 30):
			o.N = between(t, "nLarge", 1000, 5000)
		default:
			o.N = between(t, "nFill", 10, 300)
			o.K = strings.Repeat(o.K, between(t, "longer", 1, 60))
		}
		if chance(t, "longValue", 30) {
			o.V = strings.Repeat(o.V, between(t, "valueLen", 1, 5000))
			o.N = min(o.N, 1000)
		}
		at := uniform(t, "at", len(c.Seq))
		c.Seq = append(c.Seq[:at:at], append([]cacheOp{o}, c.Seq[at:]...)...)
	}
	keys := sample(t, "keys", cacheKeys, between(t, "nKeys", 1, 3))
	for g := between(t, "goroutines", 2, 5); g > 0; g-- {
		var ops []cacheOp
		for i := between(t, "nPar", 2, 9); i > 0; i-- {
			o := genCacheOp(t, keys, &n)
			o.Y = pick(t, "yield", []int{0, 0, 0, 1, 2, 20})
			ops = append(ops, o)
		}
		c.Par = append(c.Par, ops)
	}
	return c
}

type cacheOut struct {
	v  string
	ok bool
}

// cacheModel is a map. Its states are immutable.
var cacheModel = porcupine.Model{
	Init: func() any { return "" },
	Step: func(state, in, out any) (bool, any) {
		m := decodeMap(state.(string))
		o := in.(cacheOp)
		switch o.Op {
		case "get":
			v, ok := m[o.K]
			return out.(cacheOut) == cacheOut{v, ok}, state
		case "set":
			m[o.K] = o.V
		case "clear":
			m = nil
		}
		return true, encodeMap(m)
	},
}

func encodeMap(m map[string]string) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%d:%s%d:%s", len(k), k, len(m[k]), m[k])
	}
	return b.String()
}

func decodeMap(s string) map[string]string {
	m := map[string]string{}
	next := func() string {
		i := strings.IndexByte(s, ':')
		n := 0
		fmt.Sscan(s[:i], &n)
		v := s[i+1 : i+1+n]
		s = s[i+1+n:]
		return v
	}
	for s != "" {
		k := next()
		m[k] = next()
	}
	return m
}

// dawdle lets other goroutines go first.
func dawdle(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

func checkCacheOps(c cacheOpsCase, rec *Rec) error {
	// one after the other, on two caches
	real := []merge.Cache{merge.NewCache(), merge.NewCache()}
	model := []map[string]string{{}, {}}
	touched := map[string]bool{}
	nontrivial := false
	var fills []cacheOp
	for i, o := range c.Seq {
		id := fmt.Sprint(o.On, o.K)
		switch o.Op {
		case "get":
			v, ok := real[o.On].Get(o.K)
			want, wantOK := model[o.On][o.K]
			nontrivial = nontrivial || touched[id]
			if v != want || ok != wantOK {
				return fmt.Errorf("operation %d, Get(%q) = %q, %v, want %q, %v", i, o.K, v, ok, want, wantOK)
			}
		case "set":
			_, had := model[o.On][o.K]
			touched[id] = had
			real[o.On].Set(o.K, o.V)
			model[o.On][o.K] = o.V
		case "fill":
			for i := 0; i < o.N; i++ {
				k, v := o.filled(i), o.V+strconv.Itoa(i)
				real[o.On].Set(k, v)
				model[o.On][k] = v
			}
			fills = append(fills, o)
			rec.Eval(false, "", "many keys", label(o.N > 40000, "very many keys"))
		case "clear":
			real[o.On].Clear()
			model[o.On] = map[string]string{}
			for _, k := range cacheKeys {
				touched[fmt.Sprint(o.On, k)] = true
			}
		}
	}
	for on := range real {
		for _, k := range cacheKeys {
			v, ok := real[on].Get(k)
			if want, wantOK := model[on][k]; v != want || ok != wantOK {
				return fmt.Errorf("in the end, Get(%q) = %q, %v, want %q, %v", k, v, ok, want, wantOK)
			}
		}
	}
	for _, o := range fills {
		for on := range real {
			for i := 0; i < o.N; i++ {
				k := o.filled(i)
				v, ok := real[on].Get(k)
				if want, wantOK := model[on][k]; v != want || ok != wantOK {
					return fmt.Errorf("in the end, Get(%q) = %q, %v, want %q, %v", k, v, ok, want, wantOK)
				}
			}
		}
	}
	rec.Eval(nontrivial, fmt.Sprint(c.Seq), "one after the other")

	// at the same time
	for round := 0; round < 3; round++ {
		cache := merge.NewCache()
		var mu sync.Mutex
		var history []porcupine.Operation
		errs := inParallel(len(c.Par), func(g int) error {
			local := make([]porcupine.Operation, 0, len(c.Par[g]))
			for _, o := range c.Par[g] {
				dawdle(o.Y)
				op := porcupine.Operation{ClientId: g, Input: o}
				var out cacheOut
				op.Call = tick()
				switch o.Op {
				case "get":
					out.v, out.ok = cache.Get(o.K)
				case "set":
					cache.Set(o.K, o.V)
				case "clear":
					cache.Clear()
				}
				op.Return = tick()
				op.Output = out
				local = append(local, op)
			}
			mu.Lock()
			history = append(history, local...)
			mu.Unlock()
			return nil
		})
		if errs != nil {
			return errs
		}
		overlap := overlaps(history)
		rec.Eval(overlap, fmt.Sprint(c.Par), "at the same time", label(overlap, "overlapping"))
		switch porcupine.CheckOperationsTimeout(cacheModel, history, 10*time.Second) {
		case porcupine.Illegal:
			return fmt.Errorf("no order of these operations explains what they returned:\n%s", describeOps(history))
		case porcupine.Unknown:
			rec.Label("undecided within the time")
		}
	}
	return nil
}

var clock atomic.Int64

// tick is a clock of which no two readings are equal.
func tick() int64 { return clock.Add(1) }

func overlaps(h []porcupine.Operation) bool {
	for i := range h {
		for j := range h[:i] {
			if h[i].ClientId != h[j].ClientId && h[i].Call < h[j].Return && h[j].Call < h[i].Return {
				return true
			}
		}
	}
	return false
}

func describeOps(h []porcupine.Operation) string {
	var b strings.Builder
	for _, o := range h {
		fmt.Fprintf(&b, "  goroutine %d [%d,%d] %+v = %+v\n", o.ClientId, o.Call, o.Return, o.Input, o.Output)
	}
	return b.String()
}

// inParallel runs f(0), f(1), ... at the same time. What panics is an error.
func inParallel(n int, f func(g int) error) error {
	var wg sync.WaitGroup
	errs := make([]error, n)
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[g] = fmt.Errorf("panic in goroutine %d: %v", g, r)
				}
			}()
			<-start
			errs[g] = f(g)
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

// C14

type parallelCase struct {
	Sheets []Sheet `json:"sheets"`
	Lists  []List  `json:"lists"`
	First  int     `json:"first"` // so many of the stylesheets are there from the beginning
	Adders [][]int `json:"adders"`
	// what each of the merging goroutines merges
	Merge    [][]int `json:"merge"`
	Cache    string  `json:"cache"`
	KeepSort bool    `json:"keepSort"`
	Fault    bool    `json:"fault"` // somebody also adds what is not a stylesheet
	Other    bool    `json:"other"` // somebody uses a merger of their own
	Delays   []int   `json:"delays"`
	Runs     int     `json:"runs"`
}

func genParallel(t *rapid.T) parallelCase {
	c := parallelCase{Cache: pick(t, "cache", []string{"", "simple", "wrapped", "wrapped", "slow", "slow", "slow"}), KeepSort: chance(t, "keepSort", 70)}
	var classes []string
	c.Sheets, classes = genRedefining(t, between(t, "nSheets", 2, 4))
	if chance(t, "longSheets", 30) {
		for i := range c.Sheets[1:] {
			c.Sheets[1+i].Fill = genFill(t, 100)
		}
	}
	for i := between(t, "nLists", 1, 4); i > 0; i-- {
		c.Lists = append(c.Lists, genList(t, classes, 7, 5, false))
	}
	c.First = uniform(t, "first", 2)
	rest := len(c.Sheets) - c.First
	if rest >= 2 && chance(t, "twoAdders", 30) {
		c.Adders = [][]int{{c.First}, {c.First + 1}}
	} else {
		var a []int
		for i := c.First; i < len(c.Sheets); i++ {
			a = append(a, i)
		}
		c.Adders = [][]int{a}
	}
	for g := between(t, "mergers", 1, 4); g > 0; g-- {
		var m []int
		for i := between(t, "nMerges", 2, 12); i > 0; i-- {
			m = append(m, uniform(t, "list", len(c.Lists)))
		}
		c.Merge = append(c.Merge, m)
	}
	c.Fault = chance(t, "fault", 25)
	c.Other = chance(t, "other", 15)
	for i := 0; i < 7; i++ {
		c.Delays = append(c.Delays, pick(t, "delay", []int{0, 0, 1, 5, 50, 400}))
	}
	c.Runs = 2
	return c
}

// slowCache is a correct cache that takes its time.
type slowCache struct {
	mu     sync.Mutex
	items  map[string]string
	delays []int
	n      atomic.Int64
}

func (c *slowCache) delay() {
	pause(c.delays[int(c.n.Add(1))%len(c.delays)])
}

func pause(n int) {
	if n >= 50 {
		time.Sleep(time.Duration(n) * time.Microsecond)
	} else {
		dawdle(n)
	}
}

func (c *slowCache) Get(k string) (string, bool) {
	c.mu.Lock()
	v, ok := c.items[k]
	c.mu.Unlock()
	c.delay()
	return v, ok
}

func (c *slowCache) Set(k, v string) {
	c.delay()
	c.mu.Lock()
	c.items[k] = v
	c.mu.Unlock()
	c.delay()
}

func (c *slowCache) Clear() {
	c.delay()
	c.mu.Lock()
	c.items = map[string]string{}
	c.mu.Unlock()
	c.delay()
}

type slowReader struct {
	r      io.Reader
	delays []int
	n      int
	chunk  int
}

// newSlowReader delivers a text in up to forty parts.
func newSlowReader(text string, delays []int) *slowReader {
	return &slowReader{r: strings.NewReader(text), delays: delays, chunk: max(64, len(text)/40)}
}

func (r *slowReader) Read(p []byte) (int, error) {
	r.n++
	pause(r.delays[r.n%len(r.delays)])
	return r.r.Read(p[:min(len(p), r.chunk)])
}

type parallelOp struct {
	add  int // the stylesheet, or -1
	list int
}

func checkParallel(c parallelCase, rec *Rec) error {
	// what each list is merged to after each possible sequence of stylesheets
	ref := map[string][]string{}
	results := func(m *merge.Merger) []string {
		var out []string
		for _, l := range c.Lists {
			ts := tokens(m.Merge(l.text()))
			if !c.KeepSort {
				ts = sortedUnique(ts)
			}
			out = append(out, strings.Join(ts, " "))
		}
		return out
	}
	base := func() (*merge.Merger, error) {
		m := getMerger(nil, true)
		for _, s := range c.Sheets[:c.First] {
			if err := m.AddRules(strings.NewReader(s.text()), false); err != nil {
				return nil, fmt.Errorf("the stylesheet is rejected: %v\n%s", err, s.text())
			}
		}
		return m, nil
	}
	orders := c.Adders
	if len(c.Adders) == 2 {
		a, b := c.Adders[0][0], c.Adders[1][0]
		orders = [][]int{{a, b}, {b, a}}
	}
	for _, o := range orders {
		m, err := base()
		if err != nil {
			return err
		}
		state := ""
		ref[state] = results(m)
		for _, s := range o {
			if err := m.AddRules(strings.NewReader(c.Sheets[s].text()), false); err != nil {
				return fmt.Errorf("the stylesheet is rejected: %v\n%s", err, c.Sheets[s].text())
			}
			state += fmt.Sprint(s)
			ref[state] = results(m)
		}
	}
	model := porcupine.Model{
		Init: func() any { return "" },
		Step: func(state, in, out any) (bool, any) {
			o := in.(parallelOp)
			if o.add >= 0 {
				return true, state.(string) + fmt.Sprint(o.add)
			}
			r, ok := ref[state.(string)]
			return ok && r[o.list] == out.(string), state
		},
	}
	for run := 0; run < c.Runs; run++ {
		var cache merge.Cache
		switch c.Cache {
		case "simple":
			cache = merge.NewCache()
		case "wrapped":
			cache = otherCache{merge.NewCache()}
		case "slow":
			cache = &slowCache{items: map[string]string{}, delays: c.Delays}
		}
		m := getMerger(cache, c.KeepSort)
		for _, s := range c.Sheets[:c.First] {
			if err := m.AddRules(strings.NewReader(s.text()), false); err != nil {
				return err
			}
		}
		var mu sync.Mutex
		var history []porcupine.Operation
		n := len(c.Adders) + len(c.Merge)
		adders := len(c.Adders)
		if c.Fault {
			n++
		}
		if c.Other {
			n++
		}
		mergeOne := func(list int) string {
			ts := tokens(m.Merge(c.Lists[list].text()))
			if !c.KeepSort {
				ts = sortedUnique(ts)
			}
			return strings.Join(ts, " ")
		}
		err := inParallel(n, func(g int) error {
			var local []porcupine.Operation
			defer func() {
				mu.Lock()
				history = append(history, local...)
				mu.Unlock()
			}()
			pause(c.Delays[g%len(c.Delays)])
			switch {
			case g < adders:
				for i, s := range c.Adders[g] {
					pause(c.Delays[(g+i+1)%len(c.Delays)])
					op := porcupine.Operation{ClientId: g, Input: parallelOp{add: s}, Call: tick()}
					err := m.AddRules(newSlowReader(c.Sheets[s].text(), c.Delays), false)
					op.Return = tick()
					if err != nil {
						return fmt.Errorf("a good stylesheet is rejected: %v\n%s", err, c.Sheets[s].text())
					}
					local = append(local, op)
				}
			case g < adders+len(c.Merge):
				for i, l := range c.Merge[g-adders] {
					pause(c.Delays[(g+i+3)%len(c.Delays)])
					op := porcupine.Operation{ClientId: g, Input: parallelOp{add: -1, list: l}, Call: tick()}
					out := mergeOne(l)
					op.Return = tick()
					op.Output = out
					local = append(local, op)
				}
			case c.Fault && g == adders+len(c.Merge):
				bad := c.Sheets[0].text() + "\n.zbad{color}\n"
				if err := m.AddRules(newSlowReader(bad, c.Delays), false); err == nil {
					return fmt.Errorf("a syntax error passes unnoticed\n%s", bad)
				}
			default:
				own, err := base()
				if err != nil {
					return err
				}
				for i, want := range ref[""] {
					got := tokens(own.Merge(c.Lists[i].text()))
					if !c.KeepSort {
						got = sortedUnique(got)
					}
					if strings.Join(got, " ") != want {
						return fmt.Errorf("in a merger of its own, Merge(%q) = %q, want %q", c.Lists[i].text(), got, want)
					}
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
		// and afterwards, when all is quiet
		for i := range c.Lists {
			for k := 0; k < 2; k++ {
				op := porcupine.Operation{ClientId: n, Input: parallelOp{add: -1, list: i}, Call: tick()}
				op.Output = mergeOne(i)
				op.Return = tick()
				history = append(history, op)
			}
		}
		changing := false
		for _, a := range history {
			for _, b := range history {
				oa, ob := a.Input.(parallelOp), b.Input.(parallelOp)
				if oa.add >= 0 && ob.add < 0 && a.Call < b.Return && b.Call < a.Return && differs(ref, ob.list) {
					changing = true
				}
			}
		}
		rec.Eval(changing, fmt.Sprint(c, run), label(c.Cache != "", "with a cache"), label(c.Cache == "slow", "with a slow cache"), label(len(c.Adders) > 1, "two goroutines add rules"),
			label(overlaps(history), "overlapping"), label(c.Fault, "with a failing stylesheet"), label(c.Other, "with another merger"))
		switch porcupine.CheckOperationsTimeout(model, history, 10*time.Second) {
		case porcupine.Illegal:
			return fmt.Errorf("no order of these operations explains what they returned:\n%sresults by stylesheets added: %q\nlists: %q",
				describeOps(history), ref, c.Lists)
		case porcupine.Unknown:
			rec.Label("undecided within the time")
		}
	}
	return nil
}

func differs(ref map[string][]string, list int) bool {
	first := ""
	n := 0
	for _, r := range ref {
		if n > 0 && r[list] != first {
			return true
		}
		first = r[list]
		n++
	}
	return false
}
