package zzverif

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// A property is a generator of cases and an oracle. A case is plain data (JSON),
// so the file that a violation leaves behind can be replayed without rapid.

type property struct {
	id    string
	rule  string
	gen   func(t *rapid.T) any
	load  func(data []byte) (any, error)
	check func(c any, rec *Rec) error
}

var registry = map[string]*property{}

func register[C any](id, rule string, gen func(t *rapid.T) C, check func(c C, rec *Rec) error) {
	registry[id] = &property{
		id:   id,
		rule: rule,
		gen:  func(t *rapid.T) any { return gen(t) },
		load: func(data []byte) (any, error) {
			var c C
			err := json.Unmarshal(data, &c)
			return c, err
		},
		check: func(c any, rec *Rec) error { return check(c.(C), rec) },
	}
}

// Rec counts what a run covered.
type Rec struct {
	mute       bool
	Evals      int            `json:"evaluations"`
	Nontrivial int            `json:"nontrivial"`
	Cases      int            `json:"cases"`
	Labels     map[string]int `json:"labels"`
	Samples    []any          `json:"samples"`
	Rule       string         `json:"rule"`
	Truncated  bool           `json:"truncated"`
	hashes     map[uint64]struct{}
	caseHit    bool
}

// Eval records one evaluation of the oracle. key identifies the input that was evaluated.
func (r *Rec) Eval(nontrivial bool, key string, labels ...string) {
	if r.mute {
		return
	}
	r.Evals++
	for _, l := range labels {
		if l != "" {
			r.Labels[l]++
		}
	}
	if nontrivial {
		r.Nontrivial++
		r.caseHit = true
		h := fnv.New64a()
		io.WriteString(h, key)
		r.hashes[h.Sum64()] = struct{}{}
	}
}

func (r *Rec) Label(l string) {
	if !r.mute {
		r.Labels[l]++
	}
}

// Sample keeps up to a handful of what was tried.
func (r *Rec) Sample(s any) {
	if !r.mute && len(r.Samples) < 6 {
		r.Samples = append(r.Samples, s)
	}
}

var (
	flagProp   = flag.String("verif.prop", "", "property to decide")
	flagOut    = flag.String("verif.out", "", "directory for the results of this shard")
	flagReplay = flag.String("verif.replay", "", "case to replay")
	flagShard  = flag.String("verif.shard", "0/1", "which of how many shards this is")
	flagTier   = flag.String("verif.tier", "quick", "quick or thorough")
	flagStop   = flag.Duration("verif.softstop", 0, "stop generating after this long")
)

var (
	caseStartCPU  atomic.Int64 // CPU time of the process when the current case started, or -1
	caseStartWall atomic.Int64
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	exitHang     = 97
	exitDeadlock = 98
	exitMemory   = 96
)

// watchdog ends the process if the code under test does not come back.
// It goes by CPU time, so a busy machine does not set it off.
func watchdog(maxCPU time.Duration) {
	const tick = 500 * time.Millisecond
	var cpuAt time.Duration
	idleSince := time.Now()
	last := int64(-1)
	for n := 0; ; n++ {
		time.Sleep(tick)
		start := caseStartCPU.Load()
		wall := caseStartWall.Load()
		cpu := cpuTime()
		if start < 0 || wall != last || cpu-cpuAt > 100*time.Millisecond {
			last = wall
			cpuAt = cpu
			idleSince = time.Now()
		}
		if start < 0 {
			continue
		}
		if cpu-time.Duration(start) > maxCPU {
			fmt.Fprintf(os.Stderr, "VERIF-HANG: a single case used more than %v of CPU time\n", maxCPU)
			dumpStacks()
			os.Exit(exitHang)
		}
		// nothing but this goroutine has run for two minutes
		if time.Since(idleSince) > 120*time.Second {
			fmt.Fprintf(os.Stderr, "VERIF-DEADLOCK: a case is blocked\n")
			dumpStacks()
			os.Exit(exitDeadlock)
		}
		if n%4 != 0 {
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 6<<30 {
			fmt.Fprintf(os.Stderr, "VERIF-MEMORY: a case uses %d MB\n", ms.HeapAlloc>>20)
			dumpStacks()
			os.Exit(exitMemory)
		}
	}
}

func dumpStacks() {
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	os.Stderr.Write(buf)
}

// runCase runs the oracle on a case, and if it fails, once more without mergers that have been used before.
func runCase(p *property, c any, rec *Rec) error {
	caseStartWall.Store(time.Now().UnixNano())
	caseStartCPU.Store(int64(cpuTime()))
	defer caseStartCPU.Store(-1)
	err := runOnce(p, c, rec)
	if err == nil {
		recycleMergers()
		return nil
	}
	if mergers.off {
		return err
	}
	// once more, and more than once, as it may be a matter of luck
	dropMergers(true)
	first := err
	for start, n := cpuTime(), 0; n < 6 || n < 40 && cpuTime()-start < 4*time.Second; n++ {
		if err = runOnce(p, c, &Rec{mute: true}); err != nil {
			return err // mergers are not used again, for what is done from now on is to shrink the case
		}
	}
	dropMergers(false)
	rec.Label("unconfirmed: " + first.Error())
	return nil
}

// runOnce runs the oracle on a case. A panic of the code under test is a failure.
func runOnce(p *property, c any, rec *Rec) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return p.check(c, rec)
}

// harnessError is a mistake of the harness; it must not pass for a violation.
type harnessError string

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func TestMain(m *testing.M) {
	flag.Parse()
	log.SetOutput(io.Discard) // the code under test logs every selector it cannot parse
	debug.SetMaxStack(256 << 20)
	os.Exit(m.Run())
}

func TestProperty(t *testing.T) {
	if *flagProp == "" {
		t.Skip("no property given")
	}
	p := registry[*flagProp]
	if p == nil {
		t.Fatalf("no property %q", *flagProp)
	}
	maxCPU := 40 * time.Second
	if raceEnabled {
		maxCPU = 240 * time.Second
	}
	go watchdog(maxCPU)
	caseStartCPU.Store(-1)

	if *flagReplay != "" {
		data, err := os.ReadFile(*flagReplay)
		if err != nil {
			t.Fatal(err)
		}
		var f failure
		if err := json.Unmarshal(data, &f); err != nil {
			t.Fatal(err)
		}
		c, err := p.load(f.Case)
		if err != nil {
			t.Fatal(err)
		}
		n := 1
		if f.Repeat > 1 {
			n = f.Repeat
		}
		dropMergers(true)
		for i := 0; i < n; i++ {
			if err := runCase(p, c, &Rec{mute: true}); err != nil {
				fmt.Printf("REPLAY-VIOLATION %v\n", err)
				t.FailNow()
			}
		}
		fmt.Println("REPLAY-OK")
		return
	}

	rec := &Rec{Labels: map[string]int{}, hashes: map[uint64]struct{}{}, Rule: p.rule}
	start := time.Now()
	defer writeStats(rec)
	failed := 0
	var curFile *os.File
	if *flagOut != "" {
		f, err := os.Create(filepath.Join(*flagOut, "current.json"))
		if err != nil {
			t.Fatal(err)
		}
		curFile = f
	}
	rapid.Check(t, func(rt *rapid.T) {
		if *flagStop > 0 && failed == 0 && time.Since(start) > *flagStop {
			rec.Truncated = true
			return
		}
		c := p.gen(rt)
		data, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if curFile != nil {
			data2, _ := json.Marshal(failure{Property: p.id, Error: "the process died", Case: data})
			curFile.WriteAt(data2, 0)
			curFile.Truncate(int64(len(data2)))
		}
		rec.caseHit = false
		if !rec.mute {
			rec.Cases++
		}
		// what is checked is what the file says, so that a replay checks the same
		c2, err := p.load(data)
		if err != nil {
			panic(err)
		}
		if err := runCase(p, c2, rec); err != nil {
			failed++
			rec.mute = true
			// rapid runs the smallest case last
			writeFailure(p.id, data, err.Error())
			rt.Fatalf("%v", err)
		}
		if rec.caseHit && (rec.Cases&(rec.Cases-1)) == 0 && len(data) < 6000 {
			rec.Sample(json.RawMessage(data))
		}
	})
}

type failure struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Repeat   int             `json:"repeat,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func writeFailure(id string, data []byte, msg string) {
	if *flagOut == "" {
		return
	}
	out, err := json.MarshalIndent(failure{Property: id, Error: msg, Case: data}, "", " ")
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(*flagOut, "failure.json"), out, 0o644)
}

func writeStats(rec *Rec) {
	if *flagOut == "" {
		return
	}
	hs := make([]uint64, 0, len(rec.hashes))
	for h := range rec.hashes {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	b := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(b[8*i:], h)
	}
	os.WriteFile(filepath.Join(*flagOut, "hashes.bin"), b, 0o644)
	data, err := json.MarshalIndent(rec, "", " ")
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(*flagOut, "stats.json"), data, 0o644)
}
