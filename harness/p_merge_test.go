package zzverif

import (
	"errors"
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

func init() {
	register("C01",
		"two classes of the list set the same property in the same circumstance",
		func(t *rapid.T) mergeCase {
			return genMergeCase(t, sheetOpts{lo: 2, hi: 12, important: 12, custom: 10, circs: 50, clusters: 2}, 48, 10, 8)
		},
		func(c mergeCase, rec *Rec) error {
			return c.each(func(in, out []string, v *verdict, l List) error {
				rec.Eval(v.conflict, c.keyOf(l), label(v.stats.circs > 1, "several circumstances"), label(v.stats.importants > 0, "with !important"),
					label(v.stats.dup > 0, "class given twice"), label(v.stats.superseded > 0, "superseded class"))
				have := setOf(out)
				gone := map[string]bool{}
				for k, class := range v.normal {
					if !have[class] {
						gone[fmt.Sprintf("%q is gone although it is the last to set %s under %q", class, k.prop, k.circ)] = true
					}
				}
				for _, msg := range sortedKeys(gone) {
					return errors.New(msg)
				}
				return nil
			})
		})

	register("C02",
		"some class of the list is superseded",
		func(t *rapid.T) mergeCase {
			return genMergeCase(t, sheetOpts{lo: 2, hi: 12, important: 12, custom: 10, circs: 35, clusters: 1}, 48, 12, 5)
		},
		func(c mergeCase, rec *Rec) error {
			return c.each(func(in, out []string, v *verdict, l List) error {
				rec.Eval(v.stats.superseded > 0, c.keyOf(l), label(v.stats.circs > 1, "several circumstances"),
					label(v.stats.superseded > 2, "three or more superseded"))
				return extra(v, out)
			})
		})

	register("C04",
		"an important declaration is in conflict with another class",
		func(t *rapid.T) mergeCase {
			return genMergeCase(t, sheetOpts{lo: 2, hi: 10, important: 45, custom: 6, circs: 30, clusters: 1}, 48, 9, 4)
		},
		func(c mergeCase, rec *Rec) error {
			return c.each(func(in, out []string, v *verdict, l List) error {
				rec.Eval(v.conflict && v.stats.importants > 0, c.keyOf(l), label(importantEarlier(v), "important class comes before the last normal one"))
				if err := missing(v, out, any2); err != nil {
					return err
				}
				return extra(v, out)
			})
		})

	register("C05",
		"a class is kept only because of a custom property it sets, or is dropped although it sets one",
		func(t *rapid.T) mergeCase {
			return genMergeCase(t, sheetOpts{lo: 2, hi: 12, important: 8, custom: 60, circs: 35, clusters: 1}, 48, 10, 4)
		},
		func(c mergeCase, rec *Rec) error {
			return c.each(func(in, out []string, v *verdict, l List) error {
				rec.Eval(v.stats.customKept > 0 || v.stats.customDropped > 0, c.keyOf(l),
					label(v.stats.customKept > 0, "kept for its custom property"), label(v.stats.customDropped > 0, "unused custom property dropped"),
					label(v.stats.customKept > 1, "several kept"))
				if err := missing(v, out, any2); err != nil {
					return err
				}
				return extra(v, out)
			})
		})

	register("C03",
		"the two classes have different circumstances, or the same one written in two ways",
		genIsolation, checkIsolation)

	register("C07",
		"the list has a class without a rule and one with a rule",
		func(t *rapid.T) mergeCase {
			c := genMergeCase(t, sheetOpts{lo: 1, hi: 8, important: 10, custom: 20, circs: 40, clusters: 1}, 48, 12, 45)
			// unknown classes that look like known ones
			for i := range c.Lists {
				for j, tok := range c.Lists[i].Tokens {
					if chance(t, "lookalike", 15) {
						c.Lists[i].Tokens[j] = lookalike(t, tok)
					}
				}
			}
			return c
		},
		func(c mergeCase, rec *Rec) error {
			without, err := newMerger(nil, c.KeepSort, c.Sheet.text())
			if err != nil {
				return err
			}
			return c.each(func(in, out []string, v *verdict, l List) error {
				known := len(v.last) - len(v.unknown)
				rec.Eval(known > 0 && len(v.unknown) > 0, c.keyOf(l)+l.text(), label(len(l.Seps) > 0, "unusual white space"), label(v.stats.dup > 0, "class given twice"),
					label(len(in) < 2, "fewer than two classes"))
				given, have := setOf(in), setOf(out)
				for _, tok := range out {
					if !given[tok] {
						return fmt.Errorf("%q was not given", tok)
					}
				}
				for _, tok := range sortedKeys(v.unknown) {
					if !have[tok] {
						return fmt.Errorf("%q is gone although it has no rule", tok)
					}
				}
				if len(have) != len(out) {
					return fmt.Errorf("a class occurs twice")
				}
				if len(in) > 0 && known > 0 && len(v.must) > len(v.unknown) && len(out) == len(v.unknown) {
					return fmt.Errorf("no class with a rule is left")
				}
				// the other classes are merged as if the unknown ones were not there
				var rest, left []string
				for _, tok := range in {
					if !v.unknown[tok] {
						rest = append(rest, tok)
					}
				}
				for _, tok := range out {
					if !v.unknown[tok] {
						left = append(left, tok)
					}
				}
				if len(rest) > 1 { // a single class is returned as it is
					if o := tokens(without.Merge(strings.Join(rest, " "))); !sameSet(o, left) {
						return fmt.Errorf("without the classes that have no rule, %q are left", o)
					}
				}
				return nil
			})
		})

	register("C08",
		"at least two classes are left, and the order of the list is not alphabetical",
		func(t *rapid.T) orderCase {
			c := orderCase{mergeCase: genMergeCase(t, sheetOpts{lo: 2, hi: 14, important: 10, custom: 20, circs: 60, clusters: 3}, 16, 14, 15)}
			c.Shift = uniform(t, "shift", len(c.Sheet.Rules))
			return c
		},
		checkOrder)

	register("C09",
		"merging drops a class",
		func(t *rapid.T) composeCase {
			custom := 0
			if chance(t, "withCustom", 30) {
				custom = 50
			}
			c := composeCase{Custom: custom > 0}
			c.Sheet = genSheet(t, sheetOpts{lo: 2, hi: 12, important: 15, custom: custom, circs: 40, clusters: 1, noEmpty: true})
			var classes []string
			for _, r := range c.Sheet.Rules {
				classes = append(classes, r.Class)
			}
			n := between(t, "n", 1, 32)
			for i := 0; i < n; i++ {
				c.A = append(c.A, genList(t, classes, 8, 8, true))
				c.B = append(c.B, genList(t, classes, 6, 8, true))
			}
			return c
		}, checkCompose)
}

func label(b bool, s string) string {
	if b {
		return s
	}
	return ""
}

func importantEarlier(v *verdict) bool {
	for k, c := range v.imp {
		if n := v.normal[k]; n != "" && v.last[n] > v.last[c] {
			return true
		}
	}
	return false
}

func lookalike(t *rapid.T, tok string) string {
	switch between(t, "look", 0, 9) {
	case 8:
		return tok + pick(t, "notSpace", []string{"\v", "\u0085", "\u2028", "\u200b", "\x1f", "\u3000", "\ufeff"})
	case 9:
		return strings.ToLower(tok) + "-"
	case 0:
		return tok + "0"
	case 1:
		return "." + tok
	case 2:
		return strings.ToUpper(tok)
	case 3:
		return cssEscape(tok, 0)
	case 4:
		return tok + ","
	case 5:
		return tok + "\u00a0x" // not white space in HTML
	case 6:
		return "hover:" + tok
	default:
		return tok + "\u2003y" + tok
	}
}

// C03

type isolationCase struct {
	Sheet Sheet `json:"sheet"`
}

func genIsolation(t *rapid.T) isolationCase {
	classes := genClasses(t, 4, 9)
	base := []Circ{genCirc(t)}
	if chance(t, "plainBase", 25) {
		base[0] = Circ{Tmpl: "&"}
	}
	for len(base) < len(classes) {
		b := pick(t, "base", base)
		switch between(t, "relation", 0, 9) {
		case 0, 1, 2:
			base = append(base, shuffleCirc(t, b))
		case 3:
			base = append(base, genCirc(t))
		default:
			base = append(base, mutateCirc(t, b))
		}
	}
	if chance(t, "contexts", 20) {
		genContexts(t, classes, base)
	}
	prop := pick(t, "prop", []string{"color", "margin-top", "width", "x-unknown", "display", "grid-row-start"})
	s := Sheet{Style: genStyle(t)}
	for i, c := range classes {
		s.Rules = append(s.Rules, Rule{Class: c, Circ: base[i], Decls: []Decl{{Prop: prop, Val: genValue(t)}}})
	}
	if chance(t, "nearProps", 8) {
		// names of properties that end like the circumstance
		for i := range s.Rules {
			r := &s.Rules[i]
			end := pick(t, "end", []string{"print", "\\:hover", "\\:\\:before", "\\ print", "\\{print", ""})
			r.Decls[0].Prop = prop + end
			if chance(t, "asCirc", 50) {
				r.Decls[0].Prop = prop
				r.Circ = Circ{Tmpl: "&"}
				switch strings.ReplaceAll(end, "\\", "") {
				case "print", " print":
					r.Circ.At = []At{{"@media", "print"}}
				case ":hover":
					r.Circ.Pseudo = []string{":hover"}
				case "::before":
					r.Circ.Elem = "before"
				case "{print":
					r.Circ.At = []At{{"@media", "print"}}
					r.Circ.Tmpl = "& > p"
				}
			}
		}
	}
	return isolationCase{s}
}

// genContexts puts names into some of the circumstances that look like the class itself.
func genContexts(t *rapid.T, classes []string, base []Circ) {
	taken := setOf(classes)
	tmpl := pick(t, "ctxTmpl", []string{
		".% &", ".% > &", "& .%", "&.%", ".%& > p", ".%:hover &", "&:is(.%)", ":is(.%) &", "&:not(.%) > p", "#% &", "% &", "&#%", "#%& p", "[title=\".$ \"] &", "[title=\".$\"] &", "&[title=\"x.$.y\"]",
		"[%] &", "[data-%=\".$:\"] &", ".% ~ & .%",
	})
	pre := pick(t, "ctxPre", []string{"", "", "x.", "x", "x\\", "x\\.", "-", "x:", "é", ".", "\"", "[x=\"", "("})
	suf := pick(t, "ctxSuf", []string{"", "x", ".x", "-1", "\\", "é", ":x", "\"", ")"})
	if pre+suf == "" && strings.ContainsAny(tmpl, ".") && strings.Contains(tmpl, ".%") {
		suf = "x"
	}
	if strings.Contains(tmpl, "$") {
		pre, suf = strings.Trim(pre, "."), strings.Trim(suf, ".")
	}
	same := ""
	if chance(t, "ctxSame", 35) {
		same = pick(t, "ctxOf", classes)
	}
	at := base[0].At
	for i := range base {
		if !chance(t, "hasCtx", 70) {
			continue
		}
		of := classes[i]
		if same != "" {
			of = same
		}
		name := pre + of + suf
		if taken[name] {
			continue
		}
		if strings.HasPrefix(tmpl, "[%]") || strings.HasPrefix(tmpl, "% ") || strings.HasPrefix(tmpl, "[data-") {
			// case does not matter in these, and what is a name varies
			if !plainIdentifier(name) {
				continue
			}
		}
		base[i] = Circ{At: at, Tmpl: tmpl, Ctx: name}
	}
}

func checkIsolation(c isolationCase, rec *Rec) error {
	m, err := newMerger(nil, true, c.Sheet.text())
	if err != nil {
		return err
	}
	keyOf := func(r *Rule) string { return r.Circ.key() + "\x00" + r.Decls[0].Prop }
	one := func(in []string) error {
		out := tokens(m.Merge(strings.Join(in, " ")))
		var want []string
		byCirc := map[string]string{}
		for _, tok := range in {
			byCirc[keyOf(c.Sheet.find(tok))] = tok
		}
		for _, tok := range in {
			if byCirc[keyOf(c.Sheet.find(tok))] == tok {
				want = append(want, tok)
			}
		}
		if !sameSet(out, want) {
			return fmt.Errorf("Merge(%q) = %q with\n%swant %q, as the circumstances are\n%s", in, out, c.Sheet.brief(in), want, circsOf(c.Sheet, in))
		}
		return nil
	}
	var all []string
	for i, r := range c.Sheet.Rules {
		all = append(all, r.Class)
		for j, q := range c.Sheet.Rules {
			if i == j {
				continue
			}
			same := keyOf(&r) == keyOf(&q)
			rewritten := same && r.Circ.raw() != q.Circ.raw()
			rec.Eval(!same || rewritten, r.Circ.raw()+"\x00"+q.Circ.raw()+r.Class, label(!same, "different"), label(rewritten, "written in two ways"))
			if err := one([]string{r.Class, q.Class}); err != nil {
				return err
			}
		}
	}
	rec.Eval(true, strings.Join(all, " ")+c.Sheet.text(), "all at once")
	return one(all)
}

func (c Circ) raw() string { return fmt.Sprint(c) }

func circsOf(s Sheet, in []string) string {
	var b strings.Builder
	for _, tok := range in {
		fmt.Fprintf(&b, "  %q: %q\n", tok, s.find(tok).Circ.key())
	}
	return b.String()
}

// C08

type orderCase struct {
	mergeCase
	// Shift says by how many places the rules are moved on among the classes to get another stylesheet
	Shift int `json:"shift"`
}

func (c orderCase) other() Sheet {
	s := c.Sheet
	s.Rules = append([]Rule(nil), s.Rules...)
	for i := range s.Rules {
		s.Rules[i].Class = c.Sheet.Rules[(i+c.Shift)%len(s.Rules)].Class
	}
	return s
}

func checkOrder(c orderCase, rec *Rec) error {
	text := c.Sheet.text()
	sorted, err := newMerger(nil, true, text)
	if err != nil {
		return err
	}
	loose, err := newMerger(nil, false, text)
	if err != nil {
		return err
	}
	again, err := newMerger(nil, true, text)
	if err != nil {
		return err
	}
	looseAgain, err := newMerger(nil, false, text)
	if err != nil {
		return err
	}
	for _, l := range c.Lists {
		in := l.text()
		out := sorted.Merge(in)
		toks := tokens(in)
		v := c.Sheet.judge(toks)
		got := tokens(out)
		abc := true
		for i := range got {
			abc = abc && (i == 0 || got[i-1] < got[i])
		}
		rec.Eval(len(got) > 1 && !abc, c.keyOf(l), label(v.stats.dup > 0, "class given twice"), label(len(got) > 4, "five or more left"))
		fail := func(f string, a ...any) error {
			return fmt.Errorf("%s\nMerge(%q) = %q with\n%s", fmt.Sprintf(f, a...), in, out, c.Sheet.brief(toks))
		}
		if len(v.last) > 1 {
			for i := 1; i < len(got); i++ {
				if v.last[got[i-1]] >= v.last[got[i]] {
					return fail("%q comes before %q", got[i-1], got[i])
				}
			}
			if out != strings.Join(got, " ") {
				return fail("the classes are not separated by single spaces")
			}
		}
		for k := 0; k < 3; k++ {
			if o := sorted.Merge(in); o != out {
				return fail("the same call then gave %q", o)
			}
			if o := again.Merge(in); o != out {
				return fail("another merger gave %q", o)
			}
			if o := loose.Merge(in); !sameSet(tokens(o), got) || len(tokens(o)) != len(got) {
				return fail("without the order kept it is %q", o)
			} else if o2 := looseAgain.Merge(in); o2 != o {
				return fail("without the order kept it is %q, and another merger gives %q", o, o2)
			}
		}
	}
	// an instance with other rules for the same classes is not affected by the first one
	other := mergeCase{Sheet: c.other(), Lists: c.Lists, KeepSort: c.KeepSort}
	return other.each(func(in, out []string, v *verdict, l List) error {
		rec.Eval(false, "", label(c.Shift > 0 && v.conflict, "another instance with other rules"))
		err := missing(v, out, any2)
		if err == nil {
			err = extra(v, out)
		}
		if err != nil {
			return fmt.Errorf("after another instance has merged the same lists: %v", err)
		}
		return nil
	})
}

// C09

type composeCase struct {
	Sheet  Sheet  `json:"sheet"`
	A      []List `json:"a"`
	B      []List `json:"b"`
	Custom bool   `json:"custom"`
}

func checkCompose(c composeCase, rec *Rec) error {
	m, err := newMerger(nil, true, c.Sheet.text())
	if err != nil {
		return err
	}
	for i := range c.A {
		a, b := c.A[i].text(), c.B[i].text()
		ma := m.Merge(a)
		toks := tokens(a)
		rec.Eval(len(tokens(ma)) < len(sortedUnique(toks)), mergeCase{Sheet: c.Sheet}.keyOf(c.A[i])+"|"+b, label(c.Custom, "with custom properties"))
		if mm := m.Merge(ma); mm != ma {
			return fmt.Errorf("Merge(%q) = %q, but merging that gives %q with\n%s", a, ma, mm, c.Sheet.brief(toks))
		}
		// classes that occur earlier as well make no difference
		if len(setOf(toks)) > 1 {
			dup := strings.Join(toks, " ") + " " + strings.Join(toks, " ")
			if md := m.Merge(dup); !sameSet(tokens(md), tokens(ma)) {
				return fmt.Errorf("Merge(%q) = %q, but Merge(%q) = %q with\n%s", a, ma, dup, md, c.Sheet.brief(toks))
			}
		}
		if c.Custom {
			continue // a custom property that is not used in a may be used in b
		}
		ab := strings.Join(append(append([]string{}, toks...), tokens(b)...), " ")
		whole := m.Merge(ab)
		for _, steps := range []string{
			m.Merge(ma + " " + b),
			m.Merge(a + " " + m.Merge(b)),
			m.Merge(ma + " " + m.Merge(b)),
		} {
			if strings.Join(tokens(steps), " ") != strings.Join(tokens(whole), " ") {
				return fmt.Errorf("Merge(%q) = %q, but merging %q and %q in steps gives %q with\n%s", ab, whole, a, b, steps, c.Sheet.brief(tokens(ab)))
			}
		}
	}
	return nil
}
