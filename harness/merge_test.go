package zzverif

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	merge "github.com/tylantz/go-tailwind-merge"
	"pgregory.net/rapid"
)

// What the checks of the merger have in common.

// mergers keeps the mergers of the cases before, because making one takes 20 ms. Their rules
// are deleted before they are used again. A case that fails with such a merger counts only if it
// fails with mergers of its own as well (see runCase).
var mergers struct {
	sync.Mutex
	off        bool
	free, used map[mergerKind][]pooledMerger
}

type mergerKind struct{ keepSort, cached bool }

type pooledMerger struct {
	m     *merge.Merger
	cache *otherCache // unless it has none
}

// otherCache hands everything on to another cache.
type otherCache struct{ merge.Cache }

// getMerger returns a merger without rules. The kind of cache that the library provides is not pooled.
func getMerger(cache merge.Cache, keepSort bool) *merge.Merger {
	mergers.Lock()
	defer mergers.Unlock()
	if _, ok := cache.(*merge.SimpleCache); ok || mergers.off {
		return merge.NewMerger(cache, keepSort)
	}
	kind := mergerKind{keepSort, cache != nil}
	var m pooledMerger
	if n := len(mergers.free[kind]); n > 0 {
		m = mergers.free[kind][n-1]
		mergers.free[kind] = mergers.free[kind][:n-1]
		if m.cache != nil {
			m.cache.Cache = cache
		}
	} else if cache != nil {
		m.cache = &otherCache{cache}
		m.m = merge.NewMerger(m.cache, keepSort)
	} else {
		m.m = merge.NewMerger(nil, keepSort)
	}
	if mergers.used == nil {
		mergers.used = map[mergerKind][]pooledMerger{}
	}
	mergers.used[kind] = append(mergers.used[kind], m)
	return m.m
}

// recycleMergers makes the mergers of a case that went well available to the next one.
func recycleMergers() {
	mergers.Lock()
	defer mergers.Unlock()
	if mergers.free == nil {
		mergers.free = map[mergerKind][]pooledMerger{}
	}
	for kind, ms := range mergers.used {
		for _, m := range ms {
			if m.cache != nil {
				m.cache.Cache = merge.NewCache()
			}
			clear(m.m.Rules())
			// it cannot be used again if that has not deleted its rules
			if len(m.m.Rules()) == 0 && len(mergers.free[kind]) < 8 {
				mergers.free[kind] = append(mergers.free[kind], m)
			}
		}
	}
	mergers.used = nil
}

// dropMergers forgets them all, and off says whether to go on without.
func dropMergers(off bool) {
	mergers.Lock()
	defer mergers.Unlock()
	mergers.free, mergers.used, mergers.off = nil, nil, off
}

func newMerger(cache merge.Cache, keepSort bool, sheets ...string) (*merge.Merger, error) {
	m := getMerger(cache, keepSort)
	for _, s := range sheets {
		if err := m.AddRules(strings.NewReader(s), false); err != nil {
			return nil, fmt.Errorf("the stylesheet is rejected: %v\n%s", err, s)
		}
	}
	return m, nil
}

// tokens splits a class attribute the way HTML does.
func tokens(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(" \t\n\f\r", r) })
}

func sortedUnique(ts []string) []string {
	out := append([]string(nil), ts...)
	sort.Strings(out)
	n := 0
	for i, t := range out {
		if i == 0 || t != out[n-1] {
			out[n] = t
			n++
		}
	}
	return out[:n]
}

func setOf(ts []string) map[string]bool {
	m := map[string]bool{}
	for _, t := range ts {
		m[t] = true
	}
	return m
}

func sameSet(a, b []string) bool {
	return strings.Join(sortedUnique(a), " ") == strings.Join(sortedUnique(b), " ")
}

// brief renders the rules of the classes in a list, for messages.
func (s Sheet) brief(ts []string) string {
	var b strings.Builder
	for _, t := range sortedUnique(ts) {
		if r := s.find(t); r != nil {
			b.WriteString("  " + r.text(0) + "\n")
		}
	}
	return b.String()
}

// mergeCase is a stylesheet and class lists to merge with it.
type mergeCase struct {
	Sheet    Sheet  `json:"sheet"`
	Lists    []List `json:"lists"`
	KeepSort bool   `json:"keepSort"`
}

func genMergeCase(t *rapid.T, o sheetOpts, nLists, maxLen, unknown int) mergeCase {
	c := mergeCase{Sheet: genSheet(t, o), KeepSort: rapid.Bool().Draw(t, "keepSort")}
	var classes []string
	for _, r := range c.Sheet.Rules {
		classes = append(classes, r.Class)
	}
	n := between(t, "nLists", 1, nLists)
	for i := 0; i < n; i++ {
		c.Lists = append(c.Lists, genList(t, classes, maxLen, unknown, true))
	}
	return c
}

// each runs Merge on every list and hands the result to f.
func (c mergeCase) each(f func(in, out []string, v *verdict, l List) error) error {
	m, err := newMerger(nil, c.KeepSort, c.Sheet.text())
	if err != nil {
		return err
	}
	for _, l := range c.Lists {
		in := tokens(l.text())
		res := m.Merge(l.text())
		out := tokens(res)
		if err := f(in, out, c.Sheet.judge(in), l); err != nil {
			return fmt.Errorf("Merge(%q) = %q with\n%s%v", l.text(), res, c.Sheet.brief(in), err)
		}
	}
	return nil
}

func (c mergeCase) keyOf(l List) string {
	var b strings.Builder
	for _, t := range l.Tokens {
		b.WriteString(t + "\x00")
		if r := c.Sheet.find(t); r != nil {
			b.WriteString(r.Circ.key())
			for _, d := range r.Decls {
				b.WriteString(d.Prop + ":" + d.Val + d.Imp + ";")
			}
		}
	}
	return b.String()
}

func missing(v *verdict, out []string, reason func(string) bool) error {
	have := setOf(out)
	for _, c := range sortedKeys(v.must) {
		if !have[c] && reason(v.must[c]) {
			return fmt.Errorf("%q is gone although %s", c, v.must[c])
		}
	}
	return nil
}

func extra(v *verdict, out []string) error {
	for _, c := range out {
		if !v.may[c] {
			return fmt.Errorf("%q is still there although every declaration of it is superseded", c)
		}
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func any2(string) bool { return true }
