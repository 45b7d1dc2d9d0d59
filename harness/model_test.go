package zzverif

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// The reference model of Merge: what CSS says about a class list and a stylesheet in which the
// last class of the list is to win.

// vkey is a property under a circumstance.
type vkey struct{ prop, circ string }

// varsIn returns the custom properties a generated value refers to. Values are generated so that
// every "var(" in them is a reference, except for the ones in plainValues.
func varsIn(val string) []string {
	var out []string
	low := strings.ToLower(val)
	for i := 0; ; {
		j := strings.Index(low[i:], "var(")
		if j < 0 {
			return out
		}
		i += j + 4
		k := i
		for k < len(val) && strings.ContainsRune(" \t\n", rune(val[k])) {
			k++
		}
		if !strings.HasPrefix(val[k:], "--") {
			continue
		}
		e := k
		for e < len(val) && !strings.ContainsRune(" \t\n,)", rune(val[e])) {
			if val[e] == '\\' {
				_, n := escapeAt(val[e:])
				e += n
				continue
			}
			e++
		}
		out = append(out, unescape(val[k:e]))
		i = e
	}
}

// escapeAt decodes the escape that s starts with and says how long it is.
func escapeAt(s string) (string, int) {
	h := 1
	for h < len(s) && h < 7 && strings.IndexByte("0123456789abcdefABCDEF", s[h]) >= 0 {
		h++
	}
	if h == 1 {
		if len(s) == 1 {
			return "", 1
		}
		_, n := utf8.DecodeRuneInString(s[1:])
		return s[1 : 1+n], 1 + n
	}
	v, err := strconv.ParseUint(s[1:h], 16, 32)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	if v == 0 {
		v = utf8.RuneError
	}
	if h < len(s) && strings.IndexByte(" \t\n\r\f", s[h]) >= 0 {
		h++
	}
	return string(rune(v)), h
}

func unescape(s string) string {
	var b strings.Builder
	for s != "" {
		if s[0] == '\\' {
			r, n := escapeAt(s)
			b.WriteString(r)
			s = s[n:]
			continue
		}
		b.WriteByte(s[0])
		s = s[1:]
	}
	return b.String()
}

// verdict is what the model says about a class list.
type verdict struct {
	last     map[string]int  // position of the last occurrence of each class
	unknown  map[string]bool // the classes without a rule
	must     map[string]string
	may      map[string]bool
	normal   map[vkey]string // the last class that sets a property
	imp      map[vkey]string // the last class that sets it !important
	conflict bool            // some property is set by two classes of the list
	stats    struct {
		superseded, importants, customKept, customDropped, circs, dup int
	}
}

// judge computes the verdict on a list of classes.
func (s Sheet) judge(tokens []string) *verdict {
	v := &verdict{
		last: map[string]int{}, unknown: map[string]bool{}, must: map[string]string{}, may: map[string]bool{},
		normal: map[vkey]string{}, imp: map[vkey]string{},
	}
	rules := map[string]*Rule{}
	custom := map[vkey]string{}
	for i, c := range tokens {
		if _, ok := v.last[c]; ok {
			v.stats.dup++
		}
		v.last[c] = i
		if rules[c] == nil {
			rules[c] = s.find(c)
		}
	}
	// only the last occurrence of a class matters
	order := make([]string, 0, len(v.last))
	for c := range v.last {
		order = append(order, c)
	}
	sort.Slice(order, func(i, j int) bool { return v.last[order[i]] < v.last[order[j]] })

	circs := map[string]bool{}
	for _, c := range order {
		r := rules[c]
		if r == nil {
			v.unknown[c] = true
			v.must[c] = "it has no rule"
			v.may[c] = true
			continue
		}
		k := r.Circ.key()
		circs[k] = true
		if len(r.Decls) == 0 {
			v.may[c] = true // it does nothing, so it does not matter
		}
		for _, d := range r.Decls {
			if strings.HasPrefix(d.Prop, "--") {
				if o := custom[vkey{d.Prop, k}]; o != "" && o != c {
					v.conflict = true
				}
				custom[vkey{d.Prop, k}] = c
			} else {
				for _, p := range mustSet(d.Prop) {
					if o := v.normal[vkey{p, k}]; o != "" && o != c {
						v.conflict = true
					}
					v.normal[vkey{p, k}] = c
				}
			}
			if d.Imp != "" {
				v.stats.importants++
				for _, p := range mustSet(d.Prop) {
					v.imp[vkey{p, k}] = c
				}
			}
		}
	}
	v.stats.circs = len(circs)
	for k, c := range v.normal {
		v.must[c] = fmt.Sprintf("it is the last to set %s under %q", k.prop, k.circ)
		v.may[c] = true
	}
	for k, c := range v.imp {
		v.must[c] = fmt.Sprintf("it is the last to set %s to something important under %q", k.prop, k.circ)
		v.may[c] = true
	}

	// custom properties: a class that is the last to set one is needed if a declaration that wins
	// uses it, be it by way of other custom properties.
	wins := func(c string, r *Rule, d Decl) bool {
		k := r.Circ.key()
		for _, p := range mustSet(d.Prop) {
			if v.normal[vkey{p, k}] == c || d.Imp != "" && v.imp[vkey{p, k}] == c {
				return true
			}
		}
		return false
	}
	var used, maybe []string
	for _, c := range order {
		r := rules[c]
		if r == nil {
			continue
		}
		for i, d := range r.Decls {
			if strings.HasPrefix(d.Prop, "--") {
				if v.must[c] != "" {
					maybe = append(maybe, varsIn(d.Val)...)
				}
				// an important custom property keeps its class, so it counts
				if d.Imp != "" && v.imp[vkey{d.Prop, r.Circ.key()}] == c {
					used = append(used, varsIn(d.Val)...)
				}
				continue
			}
			if v.must[c] != "" {
				maybe = append(maybe, varsIn(d.Val)...)
			}
			if wins(c, r, d) && !overruled(r.Decls, i) {
				used = append(used, varsIn(d.Val)...)
			}
		}
	}
	closure := func(used []string, add func(c string, name string), decls func(r *Rule, name string) []Decl) {
		seen := map[string]bool{}
		for len(used) > 0 {
			n := used[0]
			used = used[1:]
			if seen[n] {
				continue
			}
			seen[n] = true
			for k, c := range custom {
				if k.prop != n {
					continue
				}
				add(c, n)
				for _, d := range decls(rules[c], n) {
					used = append(used, varsIn(d.Val)...)
				}
			}
		}
	}
	closure(used, func(c, n string) {
		if v.must[c] == "" {
			v.stats.customKept++
			v.must[c] = fmt.Sprintf("it sets %s, which is in use", n)
		}
		v.may[c] = true
	}, func(r *Rule, name string) []Decl {
		var out []Decl
		for i, d := range r.Decls {
			if d.Prop == name && !overruled(r.Decls, i) {
				out = append(out, d)
			}
		}
		return out
	})
	closure(append(maybe, used...), func(c, n string) { v.may[c] = true },
		func(r *Rule, name string) []Decl { return r.Decls })
	if len(tokens) < 2 {
		// there is nothing to merge, and such a list is returned as it is
		for _, c := range order {
			v.may[c] = true
		}
	}
	for _, c := range order {
		if !v.may[c] {
			v.stats.superseded++
			if len(custom) > 0 {
				for _, d := range rules[c].Decls {
					if strings.HasPrefix(d.Prop, "--") {
						v.stats.customDropped++
						break
					}
				}
			}
		}
	}
	return v
}

// overruled reports whether a declaration is made ineffective by a later one (or an important one) in the same rule.
func overruled(ds []Decl, i int) bool {
	set := map[string]bool{}
	for _, p := range mustSet(ds[i].Prop) {
		set[p] = true
	}
	for j, d := range ds {
		if j == i {
			continue
		}
		if (j > i && (d.Imp != "" || ds[i].Imp == "")) || (d.Imp != "" && ds[i].Imp == "") {
			for _, p := range mustSet(d.Prop) {
				delete(set, p)
			}
		}
	}
	return len(set) == 0
}

// genSheet draws a stylesheet with a rule for each class.
type sheetOpts struct {
	lo, hi    int
	important int // percentage of important declarations
	custom    int // percentage of classes that have to do with custom properties
	circs     int // percentage of rules that are not in the plainest circumstance
	clusters  int
	noEmpty   bool
}

func genProps(t *rapid.T, n int) []string {
	var props []string
	for i := 0; i < n; i++ {
		props = append(props, pick(t, "cluster", clusters)...)
	}
	if chance(t, "otherProps", 30) {
		for i := 0; i < 3; i++ {
			p := pick(t, "anyProp", allProperties)
			if p != "all" {
				props = append(props, p)
			}
		}
	}
	props = compatible(props)
	if len(props) > 6 {
		props = sample(t, "props", props, 6)
	}
	return props
}

func genCircs(t *rapid.T, n int) []Circ {
	circs := []Circ{{Tmpl: "&"}}
	for i := 1; i < n; i++ {
		switch {
		case chance(t, "near", 50):
			circs = append(circs, mutateCirc(t, pick(t, "of", circs)))
		default:
			circs = append(circs, genCirc(t))
		}
	}
	return circs
}

func genStyle(t *rapid.T) []int {
	if chance(t, "plainStyle", 40) {
		return nil
	}
	return rapid.SliceOfN(rapid.IntRange(0, 419), 1, 5).Draw(t, "style")
}

func genSheet(t *rapid.T, o sheetOpts) Sheet {
	lo, hi := o.lo, o.hi
	if hi >= 10 && chance(t, "manyClasses", 2) {
		lo, hi = 20, 50
	}
	classes := genClasses(t, lo, hi)
	props := genProps(t, o.clusters)
	circs := genCircs(t, between(t, "nCircs", 1, 5))
	vars := sample(t, "vars", customNames, between(t, "nVars", 2, 5))
	if o.custom > 0 && chance(t, "manyVars", 4) {
		vars = customNames
		lo = max(lo, 10)
	}
	s := Sheet{Style: genStyle(t), Fill: genFill(t, 3)}
	for _, c := range classes {
		r := Rule{Class: c, Circ: circs[0]}
		if chance(t, "otherCirc", o.circs) {
			r.Circ = shuffleCirc(t, pick(t, "circ", circs))
		}
		n := pick(t, "nDecls", []int{1, 1, 1, 1, 2, 2, 3, 4})
		if !o.noEmpty && chance(t, "empty", 1) {
			n = 0
		}
		if chance(t, "manyDecls", 2) {
			n = between(t, "nManyDecls", 5, 20)
			// behind others that have nothing to do with it
			for k := pick(t, "nOtherDecls", []int{0, 0, 3, 8, 30, 70}); k > 0; k-- {
				r.Decls = append(r.Decls, Decl{Prop: fmt.Sprintf("zother-%d", k), Val: "1"})
			}
		}
		for i := 0; i < n; i++ {
			var d Decl
			switch {
			case o.custom > 0 && chance(t, "customDecl", o.custom/2):
				d = Decl{Prop: pick(t, "var", vars), Val: genCustomValue(t, vars)}
				if chance(t, "important", o.important/2) {
					d.Imp = pick(t, "imp", importantSpellings)
				}
			case o.custom > 0 && chance(t, "usesVar", o.custom):
				d = genDecl(t, props, o.important)
				d.Val = genVarUse(t, vars)
			default:
				d = genDecl(t, props, o.important)
			}
			if i > 0 && chance(t, "again", 8) {
				// the same property once more, perhaps important now
				prev := r.Decls[len(r.Decls)-1-uniform(t, "which", i)]
				d.Prop, d.Val = prev.Prop, prev.Val
				if strings.HasPrefix(d.Prop, "--") && o.custom > 0 {
					d.Val = genCustomValue(t, vars)
				}
			}
			r.Decls = append(r.Decls, d)
		}
		s.Rules = append(s.Rules, r)
	}
	genBulk(t, &s)
	return s
}

var customNames = []string{
	"--a", "--b", "--A", "--ab", "--a-b", "--tw-ring", "--tw-ring-color", "--tw-ring-offset", "--x_1", "--1", "--2xl", "--é", "--a.b", "--spacing-2.5", "--a/2", "--var",
	"--important", "--🙂",
}

// cssVar is a custom property's name as written in a stylesheet.
func cssVar(n string, style int) string {
	out := "--" + cssEscape(n[2:], style%4)
	if style >= 4 { // other white space after escapes
		out = strings.ReplaceAll(out, " ", []string{"\t", "\n", "\r", "\f"}[style%4])
	}
	return out
}

func genVarUse(t *rapid.T, vars []string) string {
	ref := func() string {
		n := cssVar(pick(t, "ref", vars), pick(t, "refStyle", []int{0, 0, 0, 1, 2, 3, 5, 6, 7}))
		switch between(t, "refForm", 0, 7) {
		case 0:
			return "var( " + n + " )"
		case 1:
			return "var(" + n + ",1px)"
		case 2:
			return "var(" + n + ", var(" + cssVar(pick(t, "ref2", vars), 0) + "))"
		case 3:
			return "VAR(" + n + ")"
		case 4:
			return "var(" + n + " , 0 0 #0000)"
		default:
			return "var(" + n + ")"
		}
	}
	if chance(t, "manyRefs", 3) {
		refs := make([]string, between(t, "nRefs", 3, 14))
		for i := range refs {
			refs[i] = ref()
		}
		return strings.Join(refs, pick(t, "refSep", []string{" ", ",", " 1px "}))
	}
	switch between(t, "useForm", 0, 5) {
	case 0:
		return "calc(" + ref() + " * 2)"
	case 1:
		return ref() + " " + ref()
	case 2:
		return "rgb(1 2 3 / " + ref() + ")"
	case 3:
		return "0 0 " + ref() + "," + ref()
	default:
		return ref()
	}
}

func genCustomValue(t *rapid.T, vars []string) string {
	if chance(t, "chain", 35) {
		return genVarUse(t, vars)
	}
	return pick(t, "customValue", []string{"1px", "red", " ", "0 0 #0000", "{a:b}", "a,b", "\"x;}\"", "initial", "1"})
}
