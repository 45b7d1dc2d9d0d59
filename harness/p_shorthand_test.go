package zzverif

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// C06: which properties cover which others.

type shorthandCase struct {
	// Rows are the properties that come first in the list; each of allProperties comes second to each of them.
	Rows []string
	Circ Circ
	Vals []string
	// Sets are lists of longhands around a shorthand
	Sets []shorthandSet
}

type shorthandSet struct {
	Short string
	Longs []string // in the list before (or after) the shorthand
	After bool
}

func init() {
	register("C06",
		"one of the two properties covers the other, or both set something in common, or longhands together cover a shorthand",
		func(t *rapid.T) shorthandCase {
			c := shorthandCase{Circ: Circ{Tmpl: "&"}, Vals: []string{genValue(t), genValue(t), genValue(t)}}
			if chance(t, "circ", 30) {
				c.Circ = genCirc(t)
			}
			// rows of the table, so that the shards together try every pair
			n := len(allProperties)
			lo := uniform(t, "row", n)
			for i := 0; i < 24; i++ {
				c.Rows = append(c.Rows, allProperties[(lo+i)%n])
			}
			names := sortedKeys(shorthands)
			for i := 0; i < 40; i++ {
				s := shorthandSet{Short: pick(t, "short", names), After: rapid.Bool().Draw(t, "after")}
				longs := mustSet(s.Short)
				if !chance(t, "all", 40) {
					longs = sample(t, "longs", longs, between(t, "nLongs", 1, len(longs)))
				}
				s.Longs = permute(t, "order", longs)
				c.Sets = append(c.Sets, s)
			}
			return c
		}, checkShorthands)
}

func checkShorthands(c shorthandCase, rec *Rec) error {
	var sh Sheet
	name := map[string]string{}
	all := cat(c.Rows, allProperties)
	for _, s := range c.Sets {
		all = append(append(all, s.Short), s.Longs...)
	}
	for _, p := range all {
		if name[p] != "" {
			continue
		}
		name[p] = fmt.Sprintf("k%d", len(name))
		sh.Rules = append(sh.Rules, Rule{Class: name[p], Circ: c.Circ, Decls: []Decl{{Prop: p, Val: c.Vals[len(name)%len(c.Vals)]}}})
	}
	m, err := newMerger(nil, true, sh.text())
	if err != nil {
		return err
	}
	for _, p := range c.Rows {
		for _, q := range allProperties {
			if p == q {
				continue
			}
			in := name[p] + " " + name[q]
			out := m.Merge(in)
			must, may := mustCover(q, p), mayCover(q, p)
			rec.Eval(must || overlap(p, q), p+" "+q, label(must, "the second covers the first"), label(!may && overlap(p, q), "in part only"))
			switch {
			case out != in && out != name[q]:
				return fmt.Errorf("of %q then %q, Merge keeps %q", p, q, out)
			case must && out == in:
				return fmt.Errorf("setting %q after %q does not replace it", q, p)
			case !may && out != in:
				return fmt.Errorf("setting %q after %q replaces it, although it does not set everything that it sets", q, p)
			}
		}
	}
	for _, s := range c.Sets {
		var ls []string
		set := map[string]bool{}
		for _, l := range s.Longs {
			ls = append(ls, name[l])
			for _, x := range mustSet(l) {
				set[x] = true
			}
		}
		for _, x := range mustSet(s.Short) {
			if !set[x] {
				set = nil
				break
			}
		}
		complete := set != nil
		in := strings.Join(ls, " ") + " " + name[s.Short]
		if s.After {
			in = name[s.Short] + " " + strings.Join(ls, " ")
		}
		out := m.Merge(in)
		rec.Eval(len(mustSet(s.Short)) > 1, fmt.Sprint(s), "longhands and their shorthand", label(complete && s.After, "longhands replace the shorthand"))
		have := setOf(tokens(out))
		if len(mustSet(s.Short)) < 2 {
			continue
		}
		fail := func(what string) error {
			return fmt.Errorf("of the shorthand %q and %q (after it: %v), %s: Merge(%q) = %q", s.Short, s.Longs, s.After, what, in, out)
		}
		if !s.After {
			if !have[name[s.Short]] || len(have) != 1 {
				return fail("only the shorthand should be left")
			}
			continue
		}
		for _, l := range s.Longs {
			if !have[name[l]] {
				return fail(l + " should be left")
			}
		}
		if complete && !ambiguous(s.Short) && have[name[s.Short]] {
			return fail("the shorthand should be gone")
		}
		if !complete && !have[name[s.Short]] {
			return fail("the shorthand should be left")
		}
	}
	return nil
}

func overlap(p, q string) bool {
	set := setOf(mustSet(p))
	for _, x := range mustSet(q) {
		if set[x] {
			return true
		}
	}
	return false
}
