package zzverif

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"slices"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"pgregory.net/rapid"
)

func init() {
	register("C10",
		"the list loses a class, and the stylesheet was really rewritten",
		genRewrite, checkRewrite)
	register("C11",
		"a list is merged that is merged elsewhere in the history, before or after rules were added",
		genCacheHistory, checkCacheHistory)
	register("C26",
		"a list of several classes is merged again, and no rules were added in between",
		genCacheUse, checkCacheUse)
	register("C12",
		"a stylesheet redefines a class of an earlier one, or cannot be read",
		genAddHistory, checkAddHistory)
	register("C18",
		"parts that do not count stand before or between the rules",
		genJunk, checkJunk)
	register("C23",
		"the name is escaped in the stylesheet",
		genEscape, checkEscape)
}

// C10

type rewriteCase struct {
	Sheet  Sheet    `json:"sheet"`
	Other  Sheet    `json:"other"`  // the same rules rewritten
	Rename []string `json:"rename"` // the name in Other of each class of Sheet
	Group  bool     `json:"group"`  // write rules with the same circumstance and declarations as one
	Before Sheet    `json:"before"` // rules of other classes
	After  Sheet    `json:"after"`
	Lists  []List   `json:"lists"`
}

func genRewrite(t *rapid.T) rewriteCase {
	var c rewriteCase
	c.Sheet = genSheet(t, sheetOpts{lo: 2, hi: 10, important: 15, custom: 25, circs: 45, clusters: 1})
	c.Group = chance(t, "group", 50)
	if c.Group && chance(t, "bigGroup", 3) {
		// one long selector list
		r := c.Sheet.Rules[0]
		c.Sheet.Rules = nil
		for _, name := range genClasses(t, 20, 90) {
			r.Class = name
			c.Sheet.Rules = append(c.Sheet.Rules, r)
		}
	} else if c.Group {
		for i := range c.Sheet.Rules {
			if i > 0 && chance(t, "copy", 50) {
				from := c.Sheet.Rules[uniform(t, "from", i)]
				c.Sheet.Rules[i].Circ = shuffleCirc(t, from.Circ)
				c.Sheet.Rules[i].Decls = from.Decls
			}
		}
	}
	c.Rename = make([]string, len(c.Sheet.Rules))
	rename := chance(t, "rename", 50)
	var names []string
	if rename {
		names = genClasses(t, len(c.Rename), len(c.Rename))
	}
	for i, r := range c.Sheet.Rules {
		c.Rename[i] = r.Class
		if rename {
			c.Rename[i] = names[i]
		}
	}
	o := Sheet{Style: genStyle(t)}
	for i, r := range c.Sheet.Rules {
		q := r
		q.Class = c.Rename[i]
		q.Circ = shuffleCirc(t, r.Circ)
		o.Rules = append(o.Rules, q)
	}
	if chance(t, "reorder", 60) {
		o.Rules = permute(t, "order", o.Rules)
	}
	c.Other = o
	used := map[string]bool{}
	for i := range c.Rename {
		used[c.Rename[i]] = true
		used[c.Sheet.Rules[i].Class] = true
	}
	for _, s := range []*Sheet{&c.Before, &c.After} {
		if chance(t, "irrelevant", 40) {
			x := genSheet(t, sheetOpts{lo: 1, hi: 4, important: 20, custom: 40, circs: 40, clusters: 1})
			for _, r := range x.Rules {
				if !used[r.Class] {
					s.Rules = append(s.Rules, r)
				}
			}
			s.Style = x.Style
		}
	}
	var classes []string
	for _, r := range c.Sheet.Rules {
		classes = append(classes, r.Class)
	}
	for i := 0; i < 24; i++ {
		c.Lists = append(c.Lists, genList(t, classes, 10, 0, false))
	}
	return c
}

// groupedText writes rules that agree in everything but the class as one rule with a selector list.
func (s Sheet) groupedText() string {
	var b strings.Builder
	done := map[int]bool{}
	for i, r := range s.Rules {
		if done[i] {
			continue
		}
		sels := []string{r.selectorText(s.style(i) / 4)}
		for j := i + 1; j < len(s.Rules); j++ {
			q := s.Rules[j]
			if !done[j] && q.Circ.key() == r.Circ.key() && fmt.Sprint(q.Circ.At) == fmt.Sprint(r.Circ.At) && fmt.Sprint(q.Decls) == fmt.Sprint(r.Decls) {
				done[j] = true
				sels = append(sels, q.selectorText(s.style(j)/4))
			}
		}
		sep := []string{",", ", ", " ,\n", ",/* , */"}[s.style(i)%4]
		body := "{"
		for k, d := range r.Decls {
			body += d.text(s.style(i)+k) + ";"
		}
		text := strings.Join(sels, sep) + body + "}"
		for k := len(r.Circ.At) - 1; k >= 0; k-- {
			text = r.Circ.At[k].text(s.style(i)+k) + "{" + text + "}"
		}
		b.WriteString(text + "\n")
	}
	return b.String()
}

func checkRewrite(c rewriteCase, rec *Rec) error {
	m, err := newMerger(nil, true, c.Sheet.text())
	if err != nil {
		return err
	}
	other := c.Other.text()
	if c.Group {
		other = c.Other.groupedText()
	}
	text := c.Before.text() + other + c.After.text()
	o, err := newMerger(nil, true, text)
	if err != nil {
		return err
	}
	re := map[string]string{}
	for i, r := range c.Sheet.Rules {
		re[r.Class] = c.Rename[i]
	}
	translate := func(ts []string) []string {
		out := make([]string, len(ts))
		for i, tok := range ts {
			out[i] = re[tok]
		}
		return out
	}
	rewritten := text != c.Sheet.text()
	for _, l := range c.Lists {
		if len(l.Tokens) == 0 {
			continue
		}
		in := strings.Join(l.Tokens, " ")
		out := tokens(m.Merge(in))
		in2 := strings.Join(translate(l.Tokens), " ")
		out2 := tokens(o.Merge(in2))
		rec.Eval(rewritten && len(out) < len(sortedUnique(l.Tokens)), mergeCase{Sheet: c.Sheet}.keyOf(l)+text,
			label(c.Group, "selector lists"), label(len(c.Before.Rules)+len(c.After.Rules) > 0, "more rules"), label(in != in2, "renamed"))
		if got, want := strings.Join(out2, " "), strings.Join(translate(out), " "); got != want {
			return fmt.Errorf("Merge(%q) = %q with\n%s\nbut Merge(%q) = %q (want %q) with\n%s", in, out, c.Sheet.brief(l.Tokens), in2, got, want, text)
		}
	}
	return nil
}

// C11

// step of a history: add a stylesheet (Add >= 0) or merge a list.
type step struct {
	Add   int `json:"add"`
	Merge int `json:"merge"`
	// Bad adds the stylesheet with a syntax error at its end, so that it is rejected.
	Bad bool `json:"bad,omitempty"`
}

type cacheCase struct {
	Sheets   []Sheet `json:"sheets"`
	Lists    []List  `json:"lists"`
	Steps    []step  `json:"steps"`
	Kind     string  `json:"kind"` // the cache
	Seed     int     `json:"seed"`
	KeepSort bool    `json:"keepSort"`
	// Repeat > 0: the first list is written so many times, one after the other.
	Repeat int `json:"repeat,omitempty"`
	// Many > 0: before a step that merges the first list, so many other lists are merged once.
	Many   int `json:"many,omitempty"`
	ManyAt int `json:"manyAt,omitempty"`
}

func (c cacheCase) list(i int) string {
	text := c.Lists[i].text()
	if i == 0 && c.Repeat > 0 {
		return strings.Repeat(text+" ", c.Repeat)
	}
	return text
}

// others are the lists that are merged before step i.
func (c cacheCase) others(i int) []string {
	if c.Many == 0 || i != c.ManyAt {
		return nil
	}
	out := make([]string, c.Many)
	for k := range out {
		out[k] = fmt.Sprintf("%s other-%d", c.Lists[k%len(c.Lists)].text(), k)
	}
	return out
}

func genRedefining(t *rapid.T, n int) ([]Sheet, []string) {
	first := genSheet(t, sheetOpts{lo: 3, hi: 8, important: 15, custom: 20, circs: 30, clusters: 1})
	sheets := []Sheet{first}
	var classes []string
	for _, r := range first.Rules {
		classes = append(classes, r.Class)
	}
	for i := 1; i < n; i++ {
		s := genSheet(t, sheetOpts{lo: 1, hi: 5, important: 15, custom: 20, circs: 30, clusters: 1})
		seen := map[string]bool{}
		var rules []Rule
		for _, r := range s.Rules {
			if chance(t, "redefine", 65) {
				r.Class = pick(t, "which", classes)
			}
			if chance(t, "sameProp", 60) && len(r.Decls) > 0 && len(first.Rules[0].Decls) > 0 {
				r.Decls = append(r.Decls[:0:0], r.Decls...)
				r.Decls[0].Prop = first.Rules[0].Decls[0].Prop
			}
			if chance(t, "emptied", 4) {
				r.Decls = nil
			}
			if !seen[r.Class] {
				seen[r.Class] = true
				rules = append(rules, r)
			}
		}
		s.Rules = rules
		sheets = append(sheets, s)
		for _, r := range rules {
			if !setOf(classes)[r.Class] {
				classes = append(classes, r.Class)
			}
		}
	}
	return sheets, classes
}

func genCacheHistory(t *rapid.T) cacheCase {
	c := cacheCase{Kind: pick(t, "kind", []string{"simple", "wrapped", "wrapped", "wrapped", "lossy", "lossy", "forgetful", "tiny"}), KeepSort: rapid.Bool().Draw(t, "keepSort")}
	var classes []string
	c.Sheets, classes = genRedefining(t, between(t, "nSheets", 2, 4))
	for i := 0; i < 8; i++ {
		if i > 0 && chance(t, "variant", 40) {
			// the same classes in another order, or with other white space
			l := pick(t, "of", c.Lists)
			switch k := len(l.Tokens); {
			case k > 0 && chance(t, "edit", 50):
				// one class more, one less, or another one somewhere
				at := uniform(t, "editAt", k)
				l.Tokens = append([]string(nil), l.Tokens...)
				switch between(t, "editKind", 0, 2) {
				case 0:
					l.Tokens = append(l.Tokens[:at], l.Tokens[at+1:]...)
				case 1:
					l.Tokens = append(l.Tokens, l.Tokens[at])
				default:
					l.Tokens[at] = pick(t, "editTo", classes)
				}
			default:
				l.Tokens = permute(t, "order", l.Tokens)
			}
			c.Lists = append(c.Lists, l)
			continue
		}
		maxLen := 7
		if chance(t, "longList", 5) {
			maxLen = 150
		}
		c.Lists = append(c.Lists, genList(t, classes, maxLen, 10, true))
	}
	if chance(t, "collision", 8) {
		// two lists that have the same hash, of the classes of the first one and another
		words := pick(t, "colliding", collisions)
		tokens := c.Lists[0].Tokens
		if len(tokens) == 0 {
			tokens = []string{classes[0]}
		}
		at := pick(t, "collideAt", []int{0, 0, len(tokens)})
		c.Lists = c.Lists[:6]
		for _, w := range words {
			c.Lists = append(c.Lists, List{Tokens: slices.Concat(tokens[:at], []string{w}, tokens[at:])})
		}
	}
	n := between(t, "nSteps", 5, 60)
	for i := 0; i < n; i++ {
		if chance(t, "add", 12) {
			c.Steps = append(c.Steps, step{Add: uniform(t, "sheet", len(c.Sheets)), Merge: -1, Bad: chance(t, "bad", 15)})
		} else {
			c.Steps = append(c.Steps, step{Add: -1, Merge: uniform(t, "list", len(c.Lists))})
		}
	}
	c.Seed = uniform(t, "seed", 256)
	if chance(t, "veryLong", 2) {
		c.Repeat = pick(t, "repeat", []int{50, 500, 5000})
	}
	if chance(t, "many", 3) {
		c.Many = pick(t, "howMany", []int{50, 300, 3000})
		c.ManyAt = uniform(t, "manyAt", n)
	}
	return c
}

// caches that keep the promise of the interface: what Get returns is what was Set last, unless it is gone.
type testCache struct {
	kind  string
	rng   uint32
	items map[string]string
	hits  int
}

func (c *testCache) coin(n uint32) bool {
	c.rng = c.rng*1664525 + 1013904223
	return (c.rng>>16)%n == 0
}

func (c *testCache) Get(k string) (string, bool) {
	v, ok := c.items[k]
	if ok && c.kind == "lossy" && c.coin(3) {
		delete(c.items, k)
		return "", false
	}
	if ok {
		c.hits++
	}
	return v, ok
}

func (c *testCache) Set(k, v string) {
	if c.kind == "forgetful" && c.coin(2) {
		delete(c.items, k)
		return
	}
	if c.kind == "tiny" && len(c.items) >= 2 {
		for _, k := range sortedKeys(c.items)[:1] {
			delete(c.items, k)
		}
	}
	c.items[k] = v
}

func (c *testCache) Clear() { c.items = map[string]string{} }

func checkCacheHistory(c cacheCase, rec *Rec) error {
	var cache merge.Cache = &testCache{kind: c.Kind, rng: uint32(c.Seed), items: map[string]string{}}
	switch c.Kind {
	case "simple":
		cache = merge.NewCache()
	case "wrapped":
		cache = otherCache{merge.NewCache()}
	}
	cached := getMerger(cache, c.KeepSort)
	plain := getMerger(nil, c.KeepSort)
	version := 0
	mergedAt := map[int]int{}
	added := []int{}
	for i, s := range c.Steps {
		if s.Add >= 0 {
			text := c.Sheets[s.Add].text()
			if s.Bad {
				text += "}"
				if cached.AddRules(strings.NewReader(text), false) == nil || plain.AddRules(strings.NewReader(text), false) == nil {
					return fmt.Errorf("a stylesheet with a syntax error is not rejected\n%s", text)
				}
				version++
				continue
			}
			e1 := cached.AddRules(strings.NewReader(text), false)
			e2 := plain.AddRules(strings.NewReader(text), false)
			if e1 != nil || e2 != nil {
				return fmt.Errorf("the stylesheet is rejected: %v %v\n%s", e1, e2, text)
			}
			version++
			added = append(added, s.Add)
			continue
		}
		for _, other := range c.others(i) {
			cached.Merge(other)
		}
		in := c.list(s.Merge)
		out, want := cached.Merge(in), plain.Merge(in)
		v, before := mergedAt[s.Merge]
		mergedAt[s.Merge] = version
		rec.Eval(before, fmt.Sprint(c.Sheets, added, in, c.Kind), label(before && v == version, "merged before"), label(before && v != version, "merged before rules were added"), c.Kind, label(c.Repeat > 0 && s.Merge == 0, "very long list"), label(c.Many > 0 && i >= c.ManyAt, "after many lists"))
		if !sameSet(tokens(out), tokens(want)) || c.KeepSort && strings.Join(tokens(out), " ") != strings.Join(tokens(want), " ") {
			return fmt.Errorf("step %d: with a cache (%s), Merge(%q) = %q, and without one it is %q; stylesheets so far: %v\n%s",
				i, c.Kind, abbreviated(in), abbreviated(out), abbreviated(want), added, c.textOf(added))
		}
	}
	return nil
}

// C26

// spyCache keeps everything, and counts.
type spyCache struct {
	inner      merge.Cache
	gets, hits int
	keys       map[string]string // what was stored since the cache was cleared
}

func (c *spyCache) Get(k string) (string, bool) {
	v, ok := c.inner.Get(k)
	c.gets++
	if ok {
		c.hits++
	}
	return v, ok
}

func (c *spyCache) Set(k, v string) {
	c.keys[k] = v
	c.inner.Set(k, v)
}

func (c *spyCache) Clear() {
	c.keys = map[string]string{}
	c.inner.Clear()
}

func genCacheUse(t *rapid.T) cacheCase {
	c := genCacheHistory(t)
	c.Kind = pick(t, "provided", []string{"simple", "map"})
	return c
}

func checkCacheUse(c cacheCase, rec *Rec) error {
	spy := &spyCache{inner: &testCache{kind: c.Kind, items: map[string]string{}}, keys: map[string]string{}}
	if c.Kind == "simple" {
		spy.inner = merge.NewCache()
	}
	m := getMerger(spy, c.KeepSort)
	merged := map[string]string{} // the results since rules were added last
	known := map[string]bool{}
	for i, s := range c.Steps {
		if s.Add >= 0 {
			text := c.Sheets[s.Add].text()
			if s.Bad {
				text += "}"
			}
			if err := m.AddRules(strings.NewReader(text), false); (err != nil) != s.Bad {
				return fmt.Errorf("adding rules: %v\n%s", err, text)
			}
			merged = map[string]string{}
			for _, r := range c.Sheets[s.Add].Rules {
				known[r.Class] = known[r.Class] || !s.Bad
			}
			if len(spy.keys) > 0 {
				// it does not matter when they are removed, as long as they are not used
				rec.Label("something left in the cache")
			}
			continue
		}
		for _, other := range c.others(i) {
			m.Merge(other)
		}
		in := c.list(s.Merge)
		several := 0
		for tok := range setOf(tokens(in)) {
			if known[tok] {
				several++
			}
		}
		hits := spy.hits
		out := m.Merge(in)
		before, again := merged[in]
		again = again && several > 1
		merged[in] = out
		rec.Eval(again, in+c.Kind+c.textOf([]int{0}), label(again, "again"), label(spy.hits > hits && !again, "early hit"), label(c.Repeat > 0 && s.Merge == 0, "very long list"), label(c.Many > 0 && i >= c.ManyAt, "after many lists"))
		if !again {
			continue
		}
		if before != out {
			return fmt.Errorf("step %d: Merge(%q) = %q, and %q before", i, abbreviated(in), abbreviated(out), abbreviated(before))
		}
		if spy.hits == hits {
			return fmt.Errorf("step %d: Merge(%q) = %q was merged before, but the cache was not used: %d stored entries, %d reads", i, abbreviated(in), abbreviated(out), len(spy.keys), spy.gets)
		}
	}
	return nil
}

func abbreviated(s string) string {
	if len(s) > 3000 {
		return s[:1000] + " ... " + s[len(s)-1000:]
	}
	return s
}

func (c cacheCase) textOf(added []int) string {
	var b strings.Builder
	for _, a := range added {
		b.WriteString("--- " + c.Sheets[a].text() + "\n")
	}
	return b.String()
}

// C12

type addStep struct {
	Sheet int `json:"sheet"`
	// Fault is "", "read" (the reader fails), "syntax" (the stylesheet is cut by a syntax error) or
	// "inline" (the declarations of a rule are added as a style attribute, which defines no class)
	Fault string `json:"fault"`
	At    int    `json:"at"`              // where, in permille of the text
	Chunk int    `json:"chunk"`           // the reader delivers this many bytes at a time; 0 for all
	Err   int    `json:"err,omitempty"`   // which error a failing reader returns
	Early bool   `json:"early,omitempty"` // it comes with the last of the data
	Idle  bool   `json:"idle,omitempty"`  // the reader often returns nothing at all
	// From is "buffer" (the text is in a bytes.Buffer on a part of an array) or "peek" (the reader has other methods, too)
	From string `json:"from,omitempty"`
}

type addCase struct {
	Sheets []Sheet   `json:"sheets"`
	Steps  []addStep `json:"steps"`
	Lists  []List    `json:"lists"`
	Cache  bool      `json:"cache"`
}

func genAddHistory(t *rapid.T) addCase {
	var c addCase
	var classes []string
	c.Sheets, classes = genRedefining(t, between(t, "nSheets", 2, 4))
	n := between(t, "nSteps", 1, 6)
	for i := 0; i < n; i++ {
		s := addStep{Sheet: uniform(t, "sheet", len(c.Sheets)), Chunk: pick(t, "chunk", []int{0, 0, 1, 3, 17, 512})}
		if chance(t, "fault", 45) {
			s.Fault = pick(t, "kind", []string{"read", "syntax", "syntax", "inline"})
			s.At = between(t, "at", 0, 1000)
			if chance(t, "atEnd", 20) {
				s.At = 1000
			}
			s.Err = uniform(t, "err", len(readErrors))
		}
		s.Early, s.Idle = chance(t, "early", 40), chance(t, "idle", 20)
		s.From = pick(t, "from", []string{"", "", "buffer", "peek"})
		c.Steps = append(c.Steps, s)
	}
	c.Cache = chance(t, "cache", 40)
	for i := 0; i < 10; i++ {
		c.Lists = append(c.Lists, genList(t, classes, 8, 5, false))
	}
	return c
}

type faultyReader struct {
	data  string
	chunk int
	err   error
	early bool // the error, or the end, is returned together with the last of the data
	idle  bool
	calls int
}

func (r *faultyReader) Read(p []byte) (int, error) {
	r.calls++
	if r.idle && r.calls%3 != 0 {
		return 0, nil
	}
	if r.data == "" {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	if r.early && r.data == "" {
		if r.err != nil {
			return n, r.err
		}
		return n, io.EOF
	}
	return n, nil
}

// peekReader is a reader that also tells what has been read so far.
type peekReader struct {
	*faultyReader
	seen []byte
}

func (r *peekReader) Read(p []byte) (int, error) {
	n, err := r.faultyReader.Read(p)
	r.seen = append(r.seen, p[:n]...)
	return n, err
}

func (r *peekReader) Bytes() []byte { return r.seen }

func (r *peekReader) String() string { return string(r.seen) }

func (r *peekReader) Len() int { return len(r.seen) }

// bufferWithin returns a buffer with the text on a part of an array.
func bufferWithin(text string) (buffer *bytes.Buffer, array []byte) {
	array = []byte("A{" + text + "A{B:C}")
	return bytes.NewBuffer(array[2 : 2+len(text)]), array
}

var readErrors = []error{errors.New("the disk is on fire"), io.ErrUnexpectedEOF, fmt.Errorf("connection lost: %w", io.EOF), io.ErrNoProgress, errors.New("EOF"), errors.New("")}

var syntaxErrors = []string{".zbad{color}", "}", ".zbad{color:red;=}", "@media (x){.zbad{color}}", ".zbad{color:red}}", "@media (x){@supports (y){.zbad{color:red;color;}}}"}

func checkAddHistory(c addCase, rec *Rec) error {
	var cache merge.Cache
	if c.Cache {
		cache = otherCache{merge.NewCache()}
	}
	m := getMerger(cache, true)
	var model Sheet // the rules that should be in force
	log := ""
	redefined, failed := false, false
	for i, s := range c.Steps {
		src := c.Sheets[s.Sheet]
		text := src.text()
		var reader io.Reader = &faultyReader{data: text, chunk: s.Chunk, early: s.Early, idle: s.Idle}
		log += fmt.Sprintf("--- %s at %d\n%s\n", s.Fault, s.At, text)
		switch s.Fault {
		case "read":
			reader = &faultyReader{data: text[:len(text)*s.At/1000], chunk: s.Chunk, err: readErrors[s.Err], early: s.Early, idle: s.Idle}
		case "syntax":
			// after some of the rules, something that no stylesheet has
			k := len(src.Rules) * s.At / 1000
			part := Sheet{Rules: src.Rules[:k], Style: src.Style}
			rest := Sheet{Rules: src.Rules[k:]}
			reader = &faultyReader{data: part.text() + "\n" + syntaxErrors[s.Err] + "\n" + rest.text(), chunk: s.Chunk, early: s.Early, idle: s.Idle}
		}
		inline := s.Fault == "inline"
		if inline {
			var ds []string
			if len(src.Rules) > 0 {
				for j, d := range src.Rules[s.At%len(src.Rules)].Decls {
					ds = append(ds, d.text(src.style(i)+j))
				}
			}
			reader = &faultyReader{data: strings.Join(ds, ";"), chunk: s.Chunk, early: s.Early, idle: s.Idle}
		}
		before := rulesOf(m)
		data := reader.(*faultyReader).data
		var buffer *bytes.Buffer
		var array []byte
		switch {
		case s.From == "buffer" && s.Fault != "read":
			buffer, array = bufferWithin(data)
			reader = buffer
			log += "from a buffer\n"
		case s.From == "peek":
			reader = &peekReader{faultyReader: reader.(*faultyReader)}
			log += "from a reader with more methods\n"
		}
		err := m.AddRules(reader, inline)
		if buffer != nil {
			if got, want := string(array), "A{"+data+"A{B:C}"; got != want {
				return fmt.Errorf("step %d: what the reader reads from is changed from\n%q\nto\n%q", i, want, got)
			}
			if err == nil && buffer.Len() > 0 {
				return fmt.Errorf("step %d: %d bytes of %d are left in the buffer\n%s", i, buffer.Len(), len(data), log)
			}
			for k := range array { // the array is used for something else now
				array[k] = 'z'
			}
		}
		if s.Fault != "" {
			if now := rulesOf(m); now != before {
				return fmt.Errorf("step %d changes the rules from\n%s\nto\n%s\nthough nothing should be added\n%s", i, before, now, log)
			}
		}
		switch {
		case inline && err != nil:
			return fmt.Errorf("step %d: good inline declarations are rejected: %v\n%s", i, err, log)
		case inline:
		case s.Fault == "" && err != nil:
			return fmt.Errorf("step %d: a good stylesheet is rejected: %v\n%s", i, err, log)
		case s.Fault == "read" && err == nil:
			return fmt.Errorf("step %d: the reader failed, but AddRules says nothing\n%s", i, log)
		case s.Fault != "" && err == nil:
			return fmt.Errorf("step %d: the stylesheet has a syntax error, but AddRules says nothing\n%s", i, log)
		}
		if s.Fault == "" {
			for _, r := range src.Rules {
				if p := model.find(r.Class); p != nil {
					redefined = true
					*p = r
				} else {
					model.Rules = append(model.Rules, r)
				}
			}
		} else {
			failed = failed || !inline
		}
		for _, l := range c.Lists {
			in := strings.Join(l.Tokens, " ")
			out := tokens(m.Merge(in))
			v := model.judge(tokens(in))
			rec.Eval((redefined || failed) && len(v.last) > 1, fmt.Sprint(c.Sheets, c.Steps[:i+1], in), label(redefined, "redefined"), label(failed, "after a failure"),
				label(c.Cache, "with a cache"))
			err := missing(v, out, any2)
			if err == nil {
				err = extra(v, out)
			}
			if err != nil {
				return fmt.Errorf("after step %d, Merge(%q) = %q, but %v; the rules should be\n%s\nadded:\n%s", i, in, out, err, model.brief(l.Tokens), log)
			}
		}
		// in the end it is as if the stylesheets that could be read had been one
	}
	var texts []string
	for _, s := range c.Steps {
		if s.Fault == "" {
			texts = append(texts, c.Sheets[s.Sheet].text())
		}
	}
	once, err := newMerger(nil, true, strings.Join(texts, "\n"))
	if err != nil {
		return err
	}
	for _, l := range c.Lists {
		in := strings.Join(l.Tokens, " ")
		if a, b := m.Merge(in), once.Merge(in); a != b {
			return fmt.Errorf("Merge(%q) = %q, but %q if all the stylesheets are added at once\n%s", in, a, b, log)
		}
	}
	return nil
}

// C18

type junkCase struct {
	Sheet Sheet    `json:"sheet"`
	Junk  []string `json:"junk"` // Junk[i] comes before rule i
	Lists []List   `json:"lists"`
}

// junkPool are parts of a stylesheet that define no class of the lists. Z stands for a class of the stylesheet in
// selectors that have to be rejected as a whole.
var junkPool = []string{
	"@charset \"utf-8\";", "@import url(\"a.css\");", "@import 'a.css' screen;", "@namespace svg url(http://www.w3.org/2000/svg);",
	"@font-face{font-family:X;src:url(x.woff2)}", "@font-face { font-family: \"a}b\" ; }", "@page{margin:1cm}", "@page :first{margin:1cm}",
	"@keyframes spin{to{transform:rotate(360deg)}}", "@keyframes pulse{0%,100%{opacity:1}50%{opacity:.5}}", "@-webkit-keyframes x{from{color:red}to{color:blue}}",
	"@keyframes empty{}", "@layer base,utilities;", "@layer base{.zq{color:red}}", "@layer base{@media print{.zq{color:red}}.zq2{margin:0}}",
	"@layer{.zq{color:red}}", "@container (min-width:1px){.zq{color:red}}", "@container x (min-width:1px){.zq{color:red}.zq2{color:blue}}",
	"@property --x{syntax:\"*\";inherits:false}", "@counter-style x{system:cyclic;symbols:\"-\"}", "@font-feature-values X{@styleset{a:1}}",
	"@media print{@font-face{font-family:X}}", "@media print{@keyframes x{to{color:red}}}", "@supports (display:grid){@layer x{.zq{color:red}}}",
	"@media print{}", "@supports (display:grid){ }", "@media{}",
	"/* .Z{color:red} */", "/* } */", "/* { */", "/* @media print { */", "<!-- -->",
	"p{color:red}", "*{margin:0}", "*,::before,::after{box-sizing:border-box}", "html,body{margin:0}", "#zid{color:red}", "[title]{color:red}", "::before{color:red}",
	":root{--zz:1px}", "a:hover{color:red}", ".zq{color:red}", ".zq .zq2{color:red}", ".zq{}", "::-webkit-scrollbar{width:1px}", "a[href^='}']{color:red}",
	".Z:unknown{color:red}", ".Z:unknown(.a){color:red}", ".Z::unknown{color:red}", ".Z >{color:red}", ".Z,{color:red}", "> .Z{color:red}", ".Z:not(.){color:red}",
	".Z[]{color:red}", ".Z[=x]{color:red}", ".Z:not(){color:red}", ".Z!{color:red}", ".Z,.1{color:red}", ".Z:unknown,.zq{color:red}", ".zq,.Z:unknown{color:red}", ".Z:nth-child(x){color:red}", "..Z{color:red}",
	".Z:unknown{color:red;margin:0;--zz:2px}", "@media print{.Z:unknown{color:red}}", ".Z:hover:unknown{--zz:{a:b}}", ".Z..zq{color:red}", ".Z::before.zq{color:red}",
	".Z:unknown{}", ".zq, .Z::unknown , .zq2{color:red}",
	"@layer base{.Z{zcolor:red}}", "@layer{.Z:hover{zcolor:red}.Z{zcolor:blue;color:red}}", "@layer a{@media print{.Z{zcolor:red}}}", "@media print{@layer a{.Z{zcolor:red}}}",
	"@container (min-width:1px){.Z{zcolor:red}}", "@container x (min-width:1px){@supports (a:b){.Z{zcolor:red}}.Z{zcolor:red}}", "@starting-style{.Z{zcolor:red}}",
	"@scope (.zq) to (.zq2){.Z{zcolor:red}}", "@foo{.Z{zcolor:red}}", "@foo bar;", "@foo (a){.Z{zcolor:red}@media print{.Z{zcolor:red}}}",
	"@-moz-document url-prefix(){.Z{zcolor:red}}", "@-moz-document url-prefix(){@media print{.Z{zcolor:red}}.Z{zcolor:red}}", "@document url(x){.Z{zcolor:red}}",
	"@keyframes zk{.Z{zcolor:red}}", "@-webkit-keyframes zk{.Z{zcolor:red}to{zcolor:red}}", "@media print{@keyframes zk{from{zcolor:red}.Z{zcolor:red}}}",
	"@-webkit-media print{.Z{zcolor:red}}", "@-moz-supports (a:b){.Z{zcolor:red}.zq{color:red}}", "@x-media screen{@media print{.Z{zcolor:red}}.Z{zcolor:red}}",
	"@medias print{.Z{zcolor:red}}", "@med print{.Z{zcolor:red}}", "@-o-keyframes zk{.Z{zcolor:red}}", "@-ms-media print{@keyframes zk{.Z{zcolor:red}}}",
	"@supports (display:grid){@media print{@container (a:b){.Z{zcolor:red}}}}", "@layer a{.Z:unknown{zcolor:red}}", "@keyframes zk{.Z:unknown{zcolor:red}}",
	"@media print{.Z:unknown{zcolor:red}@layer a{.Z{zcolor:red}}}", "@media print{.Z:unknown{zcolor:red}.Z..Z{zcolor:red}}",
}

func genJunk(t *rapid.T) junkCase {
	c := junkCase{Sheet: genSheet(t, sheetOpts{lo: 2, hi: 8, important: 15, custom: 20, circs: 45, clusters: 1, noEmpty: true})}
	var classes []string
	for _, r := range c.Sheet.Rules {
		classes = append(classes, r.Class)
	}
	for i := 0; i <= len(c.Sheet.Rules); i++ {
		j := ""
		for n := pick(t, "nJunk", []int{0, 1, 1, 2, 3}); n > 0; n-- {
			x := pick(t, "junk", junkPool)
			if chance(t, "deepJunk", 3) {
				x = ".Z{zcolor:red}"
				for k := between(t, "junkDepth", 2, 14); k > 0; k-- {
					x = pick(t, "junkAt", []string{"@layer a", "@media print", "@supports (a:b)", "@media print", "@keyframes k", "@document x", "@container (a:b)", "@x", "@-webkit-media x"}) + "{" + x + "}" + pick(t, "junkAfter", []string{"", ".Z{zcolor:red}"})
				}
				x = pick(t, "junkOuter", []string{"@layer a", "@keyframes k", "@document url(x)", "@-moz-document x", "@-webkit-media print", "@-moz-supports (a:b)"}) + "{" + x + "}" + ".zjunk{zcolor:red}"
			}
			x = strings.ReplaceAll(x, "Z", cssEscape(pick(t, "junkClass", classes), 0))
			if (strings.HasPrefix(x, "@charset") || strings.HasPrefix(x, "@import")) && i > 0 {
				x += "\n"
			}
			j += x
		}
		c.Junk = append(c.Junk, j)
	}
	for i := 0; i < 24; i++ {
		c.Lists = append(c.Lists, genList(t, classes, 9, 3, false))
	}
	return c
}

func checkJunk(c junkCase, rec *Rec) error {
	clean, err := newMerger(nil, true, c.Sheet.text())
	if err != nil {
		return err
	}
	var b strings.Builder
	anyJunk := false
	for i := range c.Junk {
		b.WriteString(c.Junk[i])
		anyJunk = anyJunk || c.Junk[i] != ""
		if i < len(c.Sheet.Rules) {
			r := c.Sheet.Rules[i]
			text := r.ruleText(c.Sheet.style(i))
			for k := len(r.Circ.At) - 1; k >= 0; k-- {
				inner := ""
				if k == len(r.Circ.At)-1 && i%2 == 1 && !strings.HasPrefix(c.Junk[i], "@charset") && !strings.HasPrefix(c.Junk[i], "@import") && !strings.Contains(c.Junk[i], "<!--") {
					inner = c.Junk[i] // inside as well
				}
				text = r.Circ.At[k].text(c.Sheet.style(i)+k) + "{" + inner + text + "}"
			}
			b.WriteString(text)
		}
	}
	text := b.String()
	m, err := newMerger(nil, true, text)
	if err != nil {
		return err
	}
	for _, l := range c.Lists {
		in := strings.Join(l.Tokens, " ")
		rec.Eval(anyJunk && len(l.Tokens) > 1, text+in)
		if got, want := m.Merge(in), clean.Merge(in); got != want {
			return fmt.Errorf("Merge(%q) = %q with\n%s\nbut %q with only\n%s", in, got, text, want, c.Sheet.text())
		}
	}
	return nil
}

// C23

type escapeCase struct {
	Name  string   `json:"name"`
	Forms []string `json:"forms"` // spellings of the name
	Other []string `json:"other"` // other names
}

func genEscape(t *rapid.T) escapeCase {
	var c escapeCase
	switch uniform(t, "kind", 4) {
	case 0:
		c.Name = genClassName(t)
	case 1:
		c.Name = pick(t, "pool", classPool)
	case 2:
		c.Name = rapid.StringOfN(rapid.RuneFrom([]rune("ab019-_:/.[]()&>~+*,'\"!@#$%^={}|\\;<?`é日🙂\u00a0\u0080\uffff\ufffd")), 1, 8, -1).Draw(t, "runes")
	default:
		c.Name = rapid.StringN(1, 6, -1).Draw(t, "anyRunes")
	}
	c.Name = strings.Map(func(r rune) rune {
		if strings.ContainsRune(" \t\n\f\r\x00", r) || r == 0xfeff {
			return 'x'
		}
		return r
	}, c.Name)
	for i := 0; i < 4; i++ {
		c.Forms = append(c.Forms, genSpelling(t, c.Name))
	}
	for i := 0; i < 4; i++ {
		o := lookalike(t, c.Name)
		if o = strings.Join(tokens(o), ""); o != c.Name && o != "" {
			c.Other = append(c.Other, o)
		}
	}
	return c
}

// genSpelling writes a class name in any of the ways that CSS allows.
func genSpelling(t *rapid.T, name string) string {
	var b strings.Builder
	rs := []rune(name)
	for i, r := range rs {
		plain := r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r >= 0x80 ||
			r == '-' && (i > 0 || len(rs) > 1) ||
			r >= '0' && r <= '9' && i > 0 && !(i == 1 && rs[0] == '-')
		hex := r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F'
		canBackslash := !hex && r != '\n' && r != '\f' && r != '\r' && r >= 0x20 && r != 0x7f
		switch k := uniform(t, "spell", 6); {
		case plain && k < 3:
			b.WriteRune(r)
		case canBackslash && k < 4:
			b.WriteByte('\\')
			b.WriteRune(r)
		default:
			f := pick(t, "digits", []string{"%x", "%X", "%04x", "%06x", "%06X"})
			h := fmt.Sprintf(f, r)
			if r == 0xfffd && chance(t, "invalid", 60) {
				// what is no character is taken for this one
				h = pick(t, "invalidChar", []string{"0", "00", "000000", "d800", "00dfff", "DBFF", "110000", "ffffff"})
			}
			b.WriteString("\\" + h)
			nextHex := i+1 < len(rs) && (strings.ContainsRune("0123456789abcdefABCDEF", rs[i+1]))
			switch {
			case len(h) < 6 && nextHex || i == len(rs)-1:
				// the end has white space as well, or else the next part of the selector could be taken for a part of it
				b.WriteString(pick(t, "end", []string{" ", " ", "\t", "\n", "\f", "\r"}))
			case chance(t, "space", 30):
				b.WriteString(pick(t, "space", []string{" ", " ", "\t", "\n", "\f", "\r"}))
			}
		}
	}
	return b.String()
}

// escapeCheck checks that the selector parser reads form as name, and not as one of the other names.
var escapeCheck func(form, name string, other []string) error

func checkEscape(c escapeCase, rec *Rec) error {
	for _, form := range c.Forms {
		text := "." + form + "{color:red}.zlast{color:blue}"
		for i, o := range c.Other {
			text += fmt.Sprintf(".%s{x-%d:1}", cssEscape(o, i%4), i)
		}
		m, err := newMerger(nil, true, text)
		if err != nil {
			return err
		}
		rec.Eval(form != c.Name, form, label(strings.Contains(form, "\\"), "escaped"))
		in := append([]string{c.Name}, sortedUnique(c.Other)...)
		in = append(in, "zlast")
		out := m.Merge(strings.Join(in, " "))
		if want := strings.Join(in[1:], " "); strings.Join(tokens(out), " ") != want {
			return fmt.Errorf("the class %q, written .%s in the stylesheet: Merge(%q) = %q, want %q\n%s", c.Name, form, in, out, want, text)
		}
		// and it is the one that wins
		if got := m.Merge("zlast " + c.Name); got != c.Name {
			return fmt.Errorf("the class %q, written .%s in the stylesheet: Merge(%q) = %q, want %q\n%s", c.Name, form, "zlast "+c.Name, got, c.Name, text)
		}
		// in a selector of more parts
		m, err = newMerger(nil, true, "@media print{.zdark ."+form+":hover > p{color:red}.zdark .zlast:hover > p{color:blue}}")
		if err != nil {
			return err
		}
		if got := m.Merge("zlast " + c.Name); got != c.Name {
			return fmt.Errorf("the class %q, written .zdark .%s:hover > p in the stylesheet: Merge(%q) = %q, want %q", c.Name, form, "zlast "+c.Name, got, c.Name)
		}
		if escapeCheck == nil {
			continue
		}
		// by the selector parser, to which a carriage return and line feed are one piece of white space
		for _, f := range sortedUnique([]string{form, strings.ReplaceAll(form, "\r", "\r\n"), strings.ReplaceAll(form, "\n", "\r\n")}) {
			if err := escapeCheck(f, c.Name, c.Other); err != nil {
				return err
			}
		}
	}
	return nil
}
