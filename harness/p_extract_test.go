package zzverif

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

func init() {
	register("C17",
		"the stylesheet has a selector list, an at-rule, or a class with several rules",
		genFaithful, checkFaithful)
	register("C25",
		"a class that rules name as context only is in the list",
		genContext, checkContext)
}

// C17

// block is a rule as written: selectors, each with a class and a circumstance, and declarations.
type block struct {
	At    []At   `json:"at"`
	Rules []Rule `json:"rules"` // they have the same at-rules and declarations
	Style int    `json:"style"`
}

type faithfulCase struct {
	Blocks []block `json:"blocks"`
}

func genFaithful(t *rapid.T) faithfulCase {
	var c faithfulCase
	classes := genClasses(t, 2, 6)
	vars := sample(t, "vars", customNames, 3)
	circs := genCircs(t, 4)
	nBlocks := between(t, "nBlocks", 1, 8)
	switch n := uniform(t, "manyBlocks", 8192); {
	case n == 8191:
		nBlocks = 1200
	case n >= 8176:
		nBlocks = 70
	}
	for i := nBlocks; i > 0; i-- {
		b := block{At: genAt(t), Style: uniform(t, "style", 420)}
		if len(c.Blocks) > 0 && chance(t, "nearAt", 25) {
			// like those of a block before, but for one of them
			b.At = nearAt(t, pick(t, "like", c.Blocks).At)
		}
		var ds []Decl
		nDecls := between(t, "nDecls", 1, 4)
		if chance(t, "manyDecls", 2) {
			nDecls = between(t, "nManyDecls", 5, 70)
		}
		for n := nDecls; n > 0; n-- {
			if chance(t, "custom", 25) {
				ds = append(ds, Decl{Prop: pick(t, "var", vars), Val: genCustomValue(t, vars)})
			} else {
				d := genDecl(t, allProperties, 20)
				if chance(t, "useVar", 25) {
					d.Val = genVarUse(t, vars)
				}
				ds = append(ds, d)
			}
		}
		nSels := pick(t, "nSels", []int{1, 1, 1, 2, 3, 4})
		if chance(t, "manySels", 2) {
			nSels = between(t, "nManySels", 5, 70)
		}
		for n := nSels; n > 0; n-- {
			r := Rule{Class: pick(t, "class", classes), Circ: pick(t, "circ", circs), Decls: ds}
			r.Circ.At = b.At
			b.Rules = append(b.Rules, r)
		}
		c.Blocks = append(c.Blocks, b)
	}
	return c
}

// nearAt returns at-rules that are the same as at, or nearly.
func nearAt(t *rapid.T, at []At) []At {
	at = append([]At(nil), at...)
	if chance(t, "deeper", 15) {
		for k := between(t, "nDeeper", 1, 10); k > 0; k-- {
			at = append(at, genAt(t)...)
		}
		at = at[:min(len(at), 14)]
	}
	if len(at) == 0 {
		return at
	}
	k := uniform(t, "which", len(at))
	switch uniform(t, "how", 5) {
	case 0:
		return append(at[:k], at[k+1:]...)
	case 1:
		at[k].Cond = pick(t, "otherCond", mediaConds)
		at[k].Name = "@media"
	case 2:
		if k > 0 {
			at[k-1], at[k] = at[k], at[k-1]
		}
	}
	return at
}

func (b block) text() string {
	var sels []string
	for i, r := range b.Rules {
		sels = append(sels, r.selectorText(b.Style/4+i))
	}
	var ds []string
	for i, d := range b.Rules[0].Decls {
		ds = append(ds, d.text(b.Style+i))
	}
	s := strings.Join(sels, []string{",", ", ", " ,\n", ",/* , */"}[b.Style%4]) + []string{"{", " {\n", "/* { */{"}[b.Style%3] +
		strings.Join(ds, []string{";", "; ", ";\n\t", " ;/* ; */"}[b.Style/3%4]) + []string{"}", ";}", " ; }\n"}[b.Style/2%3]
	for i := len(b.At) - 1; i >= 0; i-- {
		s = b.At[i].text(b.Style+i) + "{" + s + "}"
	}
	return s
}

// canon removes the white space and the escapes that a parser of stylesheets may leave out of a value.
func canon(v string) string {
	for {
		// a comment in the value of an ordinary property
		i := strings.Index(v, "/*")
		if i < 0 {
			break
		}
		v = v[:i] + " " + v[i+2+strings.Index(v[i+2:], "*/")+2:]
	}
	v = strings.Join(strings.FieldsFunc(v, func(r rune) bool { return strings.ContainsRune(" \t\n\r\f", r) }), " ")
	for _, c := range []string{":", ",", "/", "!", "=", "(", ")", "{", "}", ";"} {
		v = strings.ReplaceAll(strings.ReplaceAll(v, " "+c, c), c+" ", c)
	}
	return strings.TrimSpace(v)
}

func sameDecl(d Decl, prop, val string) bool {
	want := d.Prop
	if strings.HasPrefix(d.Prop, "--") {
		if prop != want {
			return false
		}
	} else if !strings.EqualFold(prop, want) {
		return false
	}
	return sameValue(d.Val+d.Imp, val)
}

// sameValue reports whether got is what is to be read of a value that is written as raw:
// the strings exactly, the rest up to insignificant white space.
func sameValue(raw, got string) bool {
	rest := got
	for {
		i := strings.IndexAny(raw, "\"'\\")
		for i >= 0 && raw[i] == '\\' {
			_, n := escapeAt(raw[i:])
			k := strings.IndexAny(raw[i+n:], "\"'\\")
			if k < 0 {
				i = -1
				break
			}
			i += n + k
		}
		if i < 0 {
			return canon(rest) == canon(unescape(raw))
		}
		end := i + 1
		for raw[end] != raw[i] {
			if raw[end] == '\\' {
				_, n := escapeAt(raw[end:])
				end += n
			} else {
				end++
			}
		}
		str := raw[i:i+1] + unescape(raw[i+1:end]) + raw[i:i+1]
		before, after, ok := strings.Cut(rest, str)
		if !ok || canon(before) != canon(unescape(raw[:i])) {
			return false
		}
		raw, rest = raw[end+1:], after
	}
}

func checkFaithful(c faithfulCase, rec *Rec) error {
	var text strings.Builder
	var all []Rule
	nontrivial := len(c.Blocks) > 2
	for _, b := range c.Blocks {
		text.WriteString(b.text())
		all = append(all, b.Rules...)
		nontrivial = nontrivial || len(b.Rules) > 1 || len(b.At) > 0
	}
	rec.Eval(nontrivial, text.String(), label(len(all) > len(c.Blocks), "selector lists"))
	fail := func(f string, a ...any) error { return fmt.Errorf(f+"\n%s", append(a, text.String())...) }

	// what the merger knows: for each class, its last rule
	m := getMerger(nil, true)
	if err := m.AddRules(strings.NewReader(text.String()), false); err != nil {
		return fail("the stylesheet is rejected: %v", err)
	}
	last := map[string]Rule{}
	for _, r := range all {
		last[r.Class] = r
	}
	rules := m.Rules()
	for _, class := range sortedKeys(last) {
		r, ok := rules[class]
		if !ok {
			return fail("there is no rule for the class %q", class)
		}
		want := last[class]
		if len(r.Declarations) != len(want.Decls) {
			return fail("the rule for the class %q has the declarations %q, want %v", class, r.Declarations, want.Decls)
		}
		for i, d := range want.Decls {
			if !sameDecl(d, r.Declarations[i].Property, r.Declarations[i].Value) {
				return fail("the rule for the class %q has the declaration %q, want %v", class, r.Declarations[i], d)
			}
		}
	}
	for class := range rules {
		if _, ok := last[class]; !ok && !contextClass(class) {
			return fail("there is a rule for the class %q", class)
		}
	}
	// the same circumstance is the same condition, and only that
	for _, a := range sortedKeys(last) {
		for _, b := range sortedKeys(last) {
			ra, rb := last[a], last[b]
			if ra.Circ.Tmpl != "&" || rb.Circ.Tmpl != "&" {
				continue
			}
			same := ra.Circ.key() == rb.Circ.key()
			if got := rules[a].GetCondition() == rules[b].GetCondition(); got != same {
				return fail("the conditions of %q and %q are %q and %q", a, b, rules[a].GetCondition(), rules[b].GetCondition())
			}
		}
	}
	if extractCheck != nil {
		return extractCheck(text.String(), all, fail)
	}
	return nil
}

// extractCheck looks at the list of rules itself, if the harness is built to do so.
var extractCheck func(text string, all []Rule, fail func(string, ...any) error) error

// C25

// markers are the classes that the templates name besides the one they are for.
var markers = []string{"zdark", "zDark", "zdarks", "zz", "zopen", "zgroup", "zgroup:focus", "zpeer", "zx", "zy", "zin", "zx.zy", "zxzy"}

func contextClass(c string) bool { return setOf(markers)[c] || c == "zx .zy" }

type contextCase struct {
	Sheet Sheet  `json:"sheet"`
	Lists []List `json:"lists"`
}

func genContext(t *rapid.T) contextCase {
	var c contextCase
	c.Sheet = genSheet(t, sheetOpts{lo: 3, hi: 10, important: 12, circs: 30, clusters: 1, noEmpty: true})
	for i := range c.Sheet.Rules {
		if chance(t, "context", 60) {
			r := &c.Sheet.Rules[i]
			r.Circ.Elem, r.Circ.Post = "", nil
			r.Circ.Tmpl = pick(t, "contextTmpl", []string{
				".zdark &", ".zdark & > p", ".zgroup:hover &", ".zpeer:checked ~ &", "&.zopen", "& .zin:hover", "&:is(.zx, .zy)", "&:where(.zdark, .zdark *)", ":is(.zdark &)", ":is(.zx, &)", ":where(.zx &, .zdark &)", ":is(.zx, .zy) > &", ".zgroup:focus &",
				".zdark .zgroup:hover &", "&.zopen.zx", ".zdark.zx > &", "& + .zin", ":is(.zdark &):hover",
			})
		}
		if len(c.Sheet.Rules[i].Decls) > 0 && chance(t, "custom", 15) {
			// a custom property that nothing uses, besides the others
			r := &c.Sheet.Rules[i]
			d := Decl{Prop: pick(t, "customName", []string{"--zc", "--zd"}), Val: pick(t, "customVal", []string{"1px", "red"})}
			k := uniform(t, "customAt", len(r.Decls)+1)
			r.Decls = append(r.Decls[:k:k], append([]Decl{d}, r.Decls[k:]...)...)
		}
	}
	var classes []string
	for _, r := range c.Sheet.Rules {
		classes = append(classes, r.Class)
	}
	for i := 0; i < 24; i++ {
		l := genList(t, classes, 8, 5, false)
		for n := between(t, "nMarkers", 1, 3); n > 0; n-- {
			k := uniform(t, "where", len(l.Tokens)+1)
			l.Tokens = append(l.Tokens[:k:k], append([]string{pick(t, "marker", markers)}, l.Tokens[k:]...)...)
		}
		c.Lists = append(c.Lists, l)
	}
	return c
}

// A class that rules name only as context (.dark, .group, .peer) does something wherever it is, so it stays,
// and the other classes are merged as if it were not there.
func checkContext(c contextCase, rec *Rec) error {
	m, err := newMerger(nil, true, c.Sheet.text())
	if err != nil {
		return err
	}
	text := c.Sheet.text()
	for _, l := range c.Lists {
		in := strings.Join(l.Tokens, " ")
		out := tokens(m.Merge(in))
		have := setOf(out)
		var rest []string
		named := false
		for _, tok := range l.Tokens {
			if !contextClass(tok) {
				rest = append(rest, tok)
				continue
			}
			named = named || strings.Contains(text, "."+tok)
			if !have[tok] {
				return fmt.Errorf("Merge(%q) = %q is without %q with\n%s", in, out, tok, text)
			}
		}
		rec.Eval(named && len(rest) > 0, in+text, label(named, "context class"))
		var restOut []string
		for _, tok := range out {
			if !contextClass(tok) {
				restOut = append(restOut, tok)
			}
		}
		want := tokens(m.Merge(strings.Join(rest, " ")))
		if len(sortedUnique(rest)) < 2 {
			want = sortedUnique(want)
		}
		if len(rest) > 0 && strings.Join(restOut, " ") != strings.Join(want, " ") {
			// a lone class is returned as it is, even if it declares nothing
			if len(want) == 1 && len(restOut) == 0 && c.Sheet.find(want[0]) != nil && len(c.Sheet.find(want[0]).Decls) == 0 {
				continue
			}
			return fmt.Errorf("Merge(%q) = %q, but %q without the classes that are only context, with\n%s", in, out, want, text)
		}
	}
	return nil
}
