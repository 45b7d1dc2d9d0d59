//go:build sel

package zzverif

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
	"pgregory.net/rapid"
)

type selCase struct {
	Sels   [][]Complex `json:"sels"`
	Styles []int       `json:"styles"`
	Tree   *Node       `json:"tree"`
	Specs  [][3]int    `json:"specs,omitempty"`
}

func genSelCase(t *rapid.T, g selGen, n int) selCase {
	c := selCase{Tree: g.tree(t)}
	c.Tree.link(nil)
	for i := 0; i < n; i++ {
		group := g.group(t)
		for j := range group {
			if chance(t, "guided", 60) {
				e := group[j].C[len(group[j].C)-1].Elem
				group[j] = g.guided(t, c.Tree)
				group[j].C[len(group[j].C)-1].Elem = e
			}
		}
		c.Sels = append(c.Sels, group)
		c.Styles = append(c.Styles, uniform(t, "style", 1<<12))
	}
	return c
}

func init() {
	register("C19",
		"the selector has something in it that could be written in several ways: a name that needs escapes, a string, an+b, or nesting",
		func(t *rapid.T) selCase {
			c := genSelCase(t, selGen{forms: rapid.Bool().Draw(t, "forms"), elem: true, complexHas: true}, 24)
			// names that take some writing
			odd := func() string {
				return strings.Map(noNul, rapid.StringOfN(rapid.RuneFrom([]rune("ab09-_:/.[]()&>~+*,'\"!@#$%^={}|\\;<?`é日🙂 \n\t\x01\x0b\x1f\x7f\u0080")), 1, 6, -1).Draw(t, "name"))
			}
			for i := range c.Sels {
				eachCompound(c.Sels[i], func(x *Compound) {
					if x.Tag != "" && x.Tag != "*" && chance(t, "oddTag", 25) {
						x.Tag = odd()
						if strings.ContainsAny(x.Tag[:1], "!/*") { // other kinds of nodes
							x.Tag = "a" + x.Tag
						}
					}
				})
				eachPart(c.Sels[i], func(p *Part) {
					switch {
					case (p.K == "class" || p.K == "id") && chance(t, "oddName", 50):
						p.V = odd()
					case p.K == "attr" && p.N != "class" && p.N != "id" && p.N != "lang" && chance(t, "oddAttr", 30):
						p.N = odd()
					case p.K == "lang" && chance(t, "oddLang", 50):
						p.V = odd()
					case (p.K == "class" || p.K == "id") && chance(t, "longName", 4):
						p.V = "n" + strings.Repeat(pick(t, "longPart", []string{"a", "é", "-:"}), between(t, "times", 20, 300))
					case (p.K == "contains" || p.K == "attr" && p.Op != "" && p.Op != "#=") && chance(t, "longString", 4):
						p.V = strings.Repeat(pick(t, "longPart", []string{"a", "é\"", "\\"}), between(t, "times", 20, 300))
						p.I = false
					case (p.K == "contains" || p.K == "attr" && p.Op != "" && p.Op != "#=") && chance(t, "oddString", 50):
						p.V = strings.Map(noNul, rapid.StringOfN(rapid.RuneFrom([]rune("ab09-_.[]()'\"\\;,é🙂 \n\t\r\f\x01\x0b\x1f\x7f\u0085\ufeff/*")), 0, 8, -1).Draw(t, "string"))
						p.I = false
					}
				})
			}
			return c
		}, checkRoundTrip)

	register("C20",
		"the selector matches some elements of the document and not others",
		func(t *rapid.T) selCase {
			return genSelCase(t, selGen{forms: chance(t, "forms", 30), complexHas: true}, 40)
		}, checkMatch)

	register("C21",
		"some node below the starting point matches",
		func(t *rapid.T) selCase {
			return genSelCase(t, selGen{small: true}, 16)
		}, checkQuery)

	register("C22",
		"the selector has at least two parts that count",
		func(t *rapid.T) selCase {
			c := genSelCase(t, selGen{forms: true, elem: true, complexHas: true}, 40)
			c.Tree = nil
			// some that are long
			for i := range c.Sels {
				if chance(t, "long", 6) {
					x := &c.Sels[i][0].C[0]
					p := pick(t, "part", []Part{{K: "class", V: "a"}, {K: "id", V: "i"}, {K: "pseudo", N: "hover"}})
					for n := between(t, "n", 8, 300); n > 0; n-- {
						x.Parts = append(x.Parts, p)
					}
				}
			}
			for i := 0; i < 24; i++ {
				var s [3]int
				for k := range s {
					s[k] = pick(t, "column", []int{0, 0, 1, 2, 9, 10, 11, 99, 255, 256, 1000, 65536})
				}
				c.Specs = append(c.Specs, s)
			}
			return c
		}, checkSpecificity)

	register("C24",
		"the text is not a selector, or is one only with pseudo-elements or lists allowed",
		genInvalid, checkInvalid)

	register("C16",
		"the text is a selector, or starts like one",
		genNoise, checkNoise)
}

func noNul(r rune) rune {
	if r == 0 || r == 0xfffd {
		return 'x'
	}
	return r
}

func eachCompound(g []Complex, f func(*Compound)) {
	for i := range g {
		for j := range g[i].C {
			f(&g[i].C[j])
			for k := range g[i].C[j].Parts {
				eachCompound(g[i].C[j].Parts[k].Sub, f)
			}
		}
	}
}

func eachPart(g []Complex, f func(*Part)) {
	for i := range g {
		for j := range g[i].C {
			for k := range g[i].C[j].Parts {
				p := &g[i].C[j].Parts[k]
				f(p)
				eachPart(p.Sub, f)
			}
		}
	}
}

func parseGroup(text string, elem bool) (cascadia.SelectorGroup, error) {
	if elem {
		return cascadia.ParseGroupWithPseudoElements(text)
	}
	return cascadia.ParseGroup(text)
}

// describe renders a document for messages.
func (n *Node) String() string {
	b, _ := json.Marshal(n)
	return string(b)
}

// maxCost is how many steps matching may take. Going back and trying again takes too long in some deep documents.
const maxCost = 3_000_000

// compareMatches checks what a selector matches against the reference, unless that takes too long.
func compareMatches(g []Complex, sel cascadia.Matcher, tree *Node) (in, out int, err error) {
	m := newMemo()
	wanted := map[*Node]bool{}
	tree.all(func(n *Node) { wanted[n] = n.isElem() && groupMatches(g, n, m) })
	if m.cost > maxCost {
		return 0, 0, nil
	}
	tree.all(func(n *Node) {
		want := wanted[n]
		got := sel.Match(n.real)
		if n.isElem() {
			if want {
				in++
			} else {
				out++
			}
		}
		if got != want && err == nil {
			err = fmt.Errorf("matches %v: %v, want %v, in %v", n, got, want, tree)
		}
	})
	return
}

// C20

func checkMatch(c selCase, rec *Rec) error {
	c.Tree.link(nil)
	for i, g := range c.Sels {
		text := groupText(g, &pen{c.Styles[i]})
		sel, err := cascadia.ParseGroup(text)
		if err != nil {
			return fmt.Errorf("the selector %q is rejected: %v", text, err)
		}
		if len(sel) != len(g) {
			return fmt.Errorf("the list %q has %d selectors, not %d", text, len(sel), len(g))
		}
		for j, s := range sel {
			unclear.Store(false)
			in, out, err := compareMatches(g[j:j+1], s, c.Tree)
			if unclear.Load() {
				rec.Label("argument of :has() that reaches out")
				continue
			}
			rec.Eval(in > 0 && out > 0, fmt.Sprint(g[j])+c.Tree.String(), label(in > 0, "matches something"), label(len(g[j].C) > 1, "with combinators"))
			if err != nil {
				return fmt.Errorf("%q of %q: %v", s, text, err)
			}
		}
		unclear.Store(false)
		if _, _, err := compareMatches(g, sel, c.Tree); err != nil && !unclear.Load() {
			return fmt.Errorf("%q: %v", text, err)
		}
	}
	return nil
}

// C19

func checkRoundTrip(c selCase, rec *Rec) error {
	c.Tree.link(nil)
	for i, g := range c.Sels {
		text := groupText(g, &pen{c.Styles[i]})
		sel, err := cascadia.ParseGroupWithPseudoElements(text)
		if err != nil {
			return fmt.Errorf("the selector %q is rejected: %v", text, err)
		}
		out := sel.String()
		rec.Eval(strings.ContainsAny(text, "\\\"'(+-"), text, label(strings.Contains(text, "\\"), "escapes"), label(len(sel) > 1, "list"))
		again, err := cascadia.ParseGroupWithPseudoElements(out)
		if err != nil {
			return fmt.Errorf("%q is written as %q, which is rejected: %v", text, out, err)
		}
		if s := again.String(); s != out {
			return fmt.Errorf("%q is written as %q, and that as %q", text, out, s)
		}
		if len(again) != len(sel) {
			return fmt.Errorf("%q is written as %q, which has %d selectors instead of %d", text, out, len(again), len(sel))
		}
		for j := range sel {
			if again[j].Specificity() != sel[j].Specificity() || again[j].PseudoElement() != sel[j].PseudoElement() {
				return fmt.Errorf("%q is written as %q, which has another specificity or pseudo-element: %v %q, %v %q", text, out,
					sel[j].Specificity(), sel[j].PseudoElement(), again[j].Specificity(), again[j].PseudoElement())
			}
			if want := g[j].C[len(g[j].C)-1].Elem; again[j].PseudoElement() != want {
				return fmt.Errorf("%q is written as %q, which has the pseudo-element %q, not %q", text, out, again[j].PseudoElement(), want)
			}
			if _, _, err := compareMatches(g[j:j+1], again[j], c.Tree); err != nil {
				return fmt.Errorf("%q is written as %q: %v", text, out, err)
			}
			one, err := cascadia.ParseWithPseudoElement(sel[j].String())
			if err != nil || one.String() != sel[j].String() {
				return fmt.Errorf("%q, one of %q, is not read back: %v", sel[j].String(), text, err)
			}
			// a selector that matches exactly the elements that have the same names
			if err := compareOwn(g[j], again[j]); err != nil {
				return fmt.Errorf("%q is written as %q: %v", text, out, err)
			}
		}
	}
	return nil
}

// compareOwn checks a selector on an element that is made to satisfy its classes, id and attributes.
func compareOwn(c Complex, sel cascadia.Sel) error {
	last := c.C[len(c.C)-1]
	n := &Node{Tag: "div"}
	if last.Tag != "" && last.Tag != "*" {
		n.Tag = last.Tag
	}
	var classes []string
	for _, p := range last.Parts {
		switch {
		case p.K == "class":
			classes = append(classes, p.V)
		case p.K == "id":
			if _, ok := n.attr("id"); !ok {
				n.Attr = append(n.Attr, [2]string{"id", p.V})
			}
		case p.K == "contains":
			n.Kids = append(n.Kids, &Node{Text: p.V})
		case p.K == "lang":
			if _, ok := n.attr("lang"); !ok {
				n.Attr = append(n.Attr, [2]string{"lang", p.V})
			}
		case p.K == "attr" && p.N != "class" && p.N != "id":
			if _, ok := n.attr(p.N); !ok && strings.Trim(p.V, " \t\n\f\r\v\u0085\u00a0") != "" {
				n.Attr = append(n.Attr, [2]string{p.N, p.V})
			}
		}
	}
	if classes != nil {
		n.Attr = append(n.Attr, [2]string{"class", strings.Join(classes, " ")})
	}
	doc := &Node{Tag: "/", Kids: []*Node{{Tag: "html", Kids: []*Node{n}}}}
	doc.link(nil)
	_, _, err := compareMatches([]Complex{c}, sel, doc)
	return err
}

// C21

func checkQuery(c selCase, rec *Rec) error {
	c.Tree.link(nil)
	var starts []*Node
	c.Tree.all(func(n *Node) { starts = append(starts, n) })
	if len(starts) > 40 { // of a deep document some of them
		var some []*Node
		for i := range starts {
			if i%(len(starts)/24) == 0 || i > len(starts)-10 {
				some = append(some, starts[i])
			}
		}
		starts = some
	}
	starts = append(starts, c.Tree)
	for i, g := range c.Sels {
		text := groupText(g, &pen{c.Styles[i]})
		sel, err := cascadia.ParseGroup(text)
		if err != nil {
			return fmt.Errorf("the selector %q is rejected: %v", text, err)
		}
		if costOf(g, c.Tree) > maxCost/10 {
			rec.Eval(false, "", "too costly")
			continue
		}
		m := newMemo()
		for _, from := range starts {
			var want, nodes []*html.Node
			from.all(func(n *Node) {
				nodes = append(nodes, n.real)
				if n.isElem() && groupMatches(g, n, m) {
					want = append(want, n.real)
				}
			})
			rec.Eval(len(want) > 0, text+from.String()+c.Tree.String(), label(len(want) > 1, "several"))
			if got := cascadia.QueryAll(from.real, sel); !sameNodes(got, want) {
				return fmt.Errorf("QueryAll(%q) from %v finds %d nodes, want %d, in document order, in %v", text, from, len(got), len(want), c.Tree)
			}
			one := cascadia.Query(from.real, sel)
			if len(want) == 0 && one != nil || len(want) > 0 && one != want[0] {
				return fmt.Errorf("Query(%q) from %v does not find the first match, in %v", text, from, c.Tree)
			}
			if got := cascadia.Filter(nodes, sel); !sameNodes(got, want) {
				return fmt.Errorf("Filter(%q) of the nodes below %v keeps %d nodes, want %d, in %v", text, from, len(got), len(want), c.Tree)
			}
			// in any order, with repetitions
			var mixed, wantMixed []*html.Node
			for k := range nodes {
				n := nodes[(k*7+3)%len(nodes)]
				mixed = append(mixed, n, n)
				for _, w := range want {
					if w == n {
						wantMixed = append(wantMixed, n, n)
					}
				}
			}
			if got := cascadia.Filter(mixed, sel); !sameNodes(got, wantMixed) {
				return fmt.Errorf("Filter(%q) of mixed nodes keeps %d nodes, want %d, in %v", text, len(got), len(wantMixed), c.Tree)
			}
		}
		if err := queryBelowDocument(c.Tree, g, sel, text); err != nil {
			return err
		}
	}
	return queryAnyMatcher(c, starts, rec)
}

// queryBelowDocument searches from a node that contains the document as a whole.
func queryBelowDocument(doc *Node, g []Complex, sel cascadia.Matcher, text string) error {
	if doc.real.Type != html.DocumentNode || doc.real.Parent != nil {
		return nil
	}
	outer := &html.Node{Type: html.DocumentNode}
	outer.AppendChild(doc.real)
	defer outer.RemoveChild(doc.real)
	var want []*html.Node
	m := newMemo()
	doc.all(func(n *Node) {
		if n.isElem() && groupMatches(g, n, m) {
			want = append(want, n.real)
		}
	})
	if got := cascadia.QueryAll(outer, sel); !sameNodes(got, want) {
		return fmt.Errorf("QueryAll(%q) from a node that contains the document finds %d nodes, want %d, in %v", text, len(got), len(want), doc)
	}
	one := cascadia.Query(outer, sel)
	if len(want) == 0 && one != nil || len(want) > 0 && one != want[0] {
		return fmt.Errorf("Query(%q) from a node that contains the document does not find the first match, in %v", text, doc)
	}
	return nil
}

// someNodes matches the nodes of a set, of whatever kind they are.
type someNodes map[*html.Node]bool

func (m someNodes) Match(n *html.Node) bool { return m[n] }

// queryAnyMatcher searches with matchers that are not selectors: each matches a part of the nodes, text and comments included.
func queryAnyMatcher(c selCase, starts []*Node, rec *Rec) error {
	seed := uint64(len(starts)) + 1
	for i := range c.Styles {
		seed = seed*31 + uint64(c.Styles[i])
	}
	for _, part := range []uint64{1, 2, 5, 1 << 20} { // all nodes, half of them, a fifth, none
		m := someNodes{}
		c.Tree.all(func(n *Node) {
			seed = seed*6364136223846793005 + 1442695040888963407
			if (seed>>33)%part == 0 {
				m[n.real] = true
			}
		})
		for _, from := range starts {
			var want, nodes []*html.Node
			from.all(func(n *Node) {
				nodes = append(nodes, n.real)
				if m[n.real] {
					want = append(want, n.real)
				}
			})
			rec.Eval(len(want) > 0, fmt.Sprint("a matcher of ", len(want), " nodes of ", len(nodes), " below ", from), label(true, "other matcher"))
			if got := cascadia.QueryAll(from.real, m); !sameNodes(got, want) {
				return fmt.Errorf("QueryAll from %v with a matcher of one in %d nodes finds %d nodes, want %d, in %v", from, part, len(got), len(want), c.Tree)
			}
			one := cascadia.Query(from.real, m)
			if len(want) == 0 && one != nil || len(want) > 0 && one != want[0] {
				return fmt.Errorf("Query from %v with a matcher of one in %d nodes does not find the first match, in %v", from, part, c.Tree)
			}
			if got := cascadia.Filter(nodes, m); !sameNodes(got, want) {
				return fmt.Errorf("Filter below %v with a matcher of one in %d nodes keeps %d nodes, want %d, in %v", from, part, len(got), len(want), c.Tree)
			}
		}
	}
	return nil
}

func sameNodes(a, b []*html.Node) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// C22

func checkSpecificity(c selCase, rec *Rec) error {
	var specs []cascadia.Specificity
	for i, g := range c.Sels {
		text := groupText(g, &pen{c.Styles[i]})
		sel, err := cascadia.ParseGroupWithPseudoElements(text)
		if err != nil {
			return fmt.Errorf("the selector %q is rejected: %v", text, err)
		}
		for j, s := range sel {
			want := g[j].spec()
			got := s.Specificity()
			rec.Eval(want[0]+want[1]+want[2] > 1, fmt.Sprint(g[j]), label(want[0] > 0 && want[1] > 0 && want[2] > 0, "all three columns"))
			if got != cascadia.Specificity(want) {
				return fmt.Errorf("the specificity of %q (in %q) is %v, want %v", s, text, got, want)
			}
			specs = append(specs, got)
		}
	}
	for _, s := range c.Specs {
		specs = append(specs, cascadia.Specificity(s))
	}
	for _, a := range specs {
		for _, b := range specs {
			want := spec(a).less(spec(b))
			if a.Less(b) != want {
				return fmt.Errorf("%v.Less(%v) = %v", a, b, a.Less(b))
			}
			ca := a
			if got := a.Add(b); got != cascadia.Specificity(spec(a).add(spec(b))) || a != ca {
				return fmt.Errorf("%v.Add(%v) = %v", ca, b, got)
			}
		}
	}
	return nil
}

// C23

func init() {
	escapeCheck = func(form, name string, other []string) error {
		with := &html.Node{Type: html.ElementNode, Data: "p", DataAtom: atom.P, Attr: []html.Attribute{{Key: "class", Val: "zq " + name + " zr"}}}
		without := &html.Node{Type: html.ElementNode, Data: "p", DataAtom: atom.P, Attr: []html.Attribute{{Key: "class", Val: strings.Join(other, " ")}}}
		for _, text := range []string{"." + form, ".zq." + form + ".zr", "p:is(." + form + ",.zx)", ".zq." + form + " "} {
			sel, err := cascadia.Parse(text)
			if err != nil {
				return fmt.Errorf("the selector %q, which has the class %q, is rejected: %v", text, name, err)
			}
			if !sel.Match(with) {
				return fmt.Errorf("the selector %q does not match an element with the class %q", text, name)
			}
			if sel.Match(without) {
				return fmt.Errorf("the selector %q, which has the class %q, matches an element with the classes %q", text, name, other)
			}
		}
		return nil
	}
}

// C24

type invalidCase struct {
	Good []string `json:"good"`
	Bad  []string `json:"bad"`
	Elem []string `json:"elem"` // selectors with a pseudo-element
}

// brokenTemplates are never selectors, whatever selector X and Y are.
var brokenTemplates = []string{
	"X >", "X +", "X ~", "> X", "+ X", "~ X", "X > > Y", "X + ~ Y", "X > , Y", ", X", "X,", "X,,Y", "X , , Y", "X)", "(X", "(X)", "X]", "[X", "X(", "X()",
	"X..a", "X.", "X#", "X.1", "X.-", "X.-1", "X##a", "X[", "X[]", "X[a", "X[a=", "X[a=b", "X[a=\"b", "X[a=\"b\"", "X[a~b]", "X[a?=b]", "X[=b]", "X[a=b c]", "X[a=b", "X[a==b]", "X[a=]", "X[a=1]", "X[a=-1]", "X[a=b i j]", "X[a=b i i]", "X[a#=(]", "X[a#=x", "X[a#=]", "X:matches()", "X:matchesOwn()", "X[a:=b]", "X[1]", "X[.a]",
	"X:", "X::", "X:::before", "X:unknown", "X::unknown", "X:hover:unknown", "X::hover", "X:1", "X: hover", "X::focus", "X::checked", "X::first-child", "X::root", "X::not(Y)", "X::nth-child(1)", "X::contains(a)", "X:hover()", "X:first-child(1)", "X:unknown(Y)",
	"X:not", "X:not(", "X:not()", "X:not(Y", "X:not(,Y)", "X:not(Y,)", "X:not(> Y", "X:not(Y:unknown)", "X:is()", "X:where(Y", "X:has()", "X:is(Y,,Y)", "X:not(Y))",
	"X:nth-child", "X:nth-child(", "X:nth-child()", "X:nth-child(x)", "X:nth-child(2n+)", "X:nth-child(2n", "X:nth-child(2n+1", "X:nth-child(2 n)", "X:nth-child(n2)", "X:nth-child(oddly)",
	"X:nth-child(+)", "X:nth-child(-)", "X:nth-child(2n 1)", "X:nth-child(2n+x)", "X:nth-of-type(+ 2)",
	"X:contains", "X:contains(", "X:contains()", "X:contains(\"a)", "X:contains(\"a\"", "X:contains(\"a\" b)", "X:lang()", "X:lang(en", "X:lang(\"", "X:matches(", "X:matches([)",
	"X!", "X{", "X}", "X;", "X@", "X%", "X$", "X\"", "X'", "X\"a\"", "X=", "X&", "!X", "@X", "X ! Y", "X % Y", "X | Y", "X /", "X\\", "X \\",
	"X::before::after", "X::before::before", "X:before::before", "X::before:after", "X::before.a", "X::before#a", "X::before[a]", "X::before:hover", "X::before:not(.a)",
	"X.\\\n", "X.a\\\n b", "X#\\\r\n", "X.\\\f", "X.\\\ra", "X[\\\n]", "X[a=b\\\n]", "X:\\\nhover", "X:lang(\\\n)", "X[a=\"b\nc\"]", "X[a='b\r\nc']", "X[a=\"\f\"]", "X[a='\r']", "X:contains(\"a\nb\")", "X:contains('a\fb')",
	"*|", "*| X", "*|.a", "X *|", "*|*|*", "**", "*a", "X[*]", "X[a|=]", "X[a*b]", "X[a=\"b\"c]", "X[a=\"b\" c]", "X[a i]", "X[a=b,c]", "X[a=b][", "X[a b]",
	"X:nth-child(\"1\")", "X:nth-child(1n1)", "X:nth-child(--1)", "X:nth-child(+-1)", "X:nth-child(n+-1)", "X:nth-child(n--1)", "X:nth-child(+odd)", "X:nth-child(odd+1)", "X:nth-child(1.5)", "X:nth-child(2n+1n)", "X:nth-child(- n)", "X:nth-child(1, 2)",
	"X:contains(a b)", "X:contains(\"a\", \"b\")", "X:lang(en,)", "X:lang(1)",
	"X/**/q", "X /**/ > /**/", "X/* */*", "X[a=b ii]", "X[a=b iI]", "X[a=\"b\"ii]", "X[a=b 1]", "X[a=b i=]", "X[a ii]", "X/", "X/ *x*/", "X[a=b]i",
	"*|..a", "*|:hover", "*|#a", "*|[a]", "*|..a Y", "*|::before", "X:nth-child(o)", "X:nth-child(od)", "X:nth-child(e)", "X:nth-child(eve)", "X:nth-child(evenly)", "X:nth-child(ood)", "X:nth-child(ODDS)",
	"X:nth-child(even odd)", "X:nth-child(nn)", "X:nth-child(en)", "X:nth-child(-odd)", "X:nth-child(n n)", "X:nth-child(+ 1)", "X:nth-child(- 1)", "X:nth-child(+ n)", "X:nth-child(n+ -1)", "X:nth-child(1 n)", "X:nth-child(0x1)",
	"X, ", "X,\n", "X ,  ", "X,/**/", "X,Y, ", "X./**/a", "X. a", "X#/**/a", "X# a", "X:/**/hover", "X::/**/before", "X: :before", "X:not (Y)", "X:not/**/(Y)", "X:is (Y)", "X:where (Y)", "X:has (Y)", "X:nth-child (2n)", "X:lang (en)",
	"X:contains (\"a\")", "X:matches (a)", "X[a~ =x]", "X[a| =x]", "X[a^/**/=x]", "X::before()", "X:before()", "X::marker()", "X:checked()", "X:hover( )", "X:empty(Y)", "X::before(Y)", "X::placeholder )",
	"", " ", "\t\n", "/* x */", "/**/", "/* x */ /**/",
}

// vendorElems are pseudo-elements that may stand where none is allowed.
var vendorElems = []string{"-moz-focusring", "-moz-placeholder", "-moz-read-only", "focus-within", "focus-visible", "-webkit-scrollbar", "-webkit-scrollbar-thumb",
	"-webkit-scrollbar-track", "-webkit-scrollbar-button", "-webkit-file-upload-button", "-webkit-search-decoration", "-webkit-outer-spin-button"}

func genInvalid(t *rapid.T) invalidCase {
	g := selGen{small: true}
	one := func() string {
		return Complex(g.complexSel(t, 1)).text(&pen{uniform(t, "style", 1<<12)})
	}
	var c invalidCase
	for i := 0; i < 16; i++ {
		x, y := one(), one()
		c.Good = append(c.Good, x)
		if chance(t, "vendor", 10) {
			c.Good = append(c.Good, x+"::"+pick(t, "vendorElem", vendorElems))
		}
		tmpl := pick(t, "tmpl", brokenTemplates)
		if chance(t, "badChar", 12) {
			// a character that no name starts with
			tmpl = pick(t, "badTmpl", []string{"X.%a", "X#%a", "X:%a", "X[%a]", "X::%a", "X:not(.%a)", "X .%", "X:%", "X.a%b", "X#a%b", "X:hover%b", "X[a%b]", "X[a=b%c]", "X[a]%b"})
			chars := "!\"#$%&'()*+,./:;<=>?@[]^`{|}~ \n\t\x01\x1f\x7f"
			if strings.HasPrefix(tmpl, "X:%") || strings.HasPrefix(tmpl, "X::%") || strings.HasPrefix(tmpl, "X[%") {
				chars += "0123456789"
			}
			if strings.HasSuffix(tmpl, "%b") {
				chars = "!\"$%&'()/;<=?@]^`{|}\x00\x01\x1f\x7f"
			}
			if strings.HasPrefix(tmpl, "X[a") && tmpl != "X[a]%b" {
				chars = "!\"$%&'()*+,./:;<>?@[^`{}\x01\x1f\x7f"
			} else if strings.HasPrefix(tmpl, "X[%") {
				chars = strings.NewReplacer(" ", "", "\n", "", "\t", "", "|", "").Replace(chars)
			}
			tmpl = strings.ReplaceAll(tmpl, "%", string(chars[uniform(t, "char", len(chars))]))
		}
		// in pieces, so that an X in x is not taken for a place
		var b strings.Builder
		for _, r := range tmpl {
			switch r {
			case 'X':
				b.WriteString(x)
			case 'Y':
				b.WriteString(y)
			default:
				b.WriteRune(r)
			}
		}
		c.Bad = append(c.Bad, b.String())
		c.Elem = append(c.Elem, y+"::"+pick(t, "elem", pseudoElems))
	}
	return c
}

func checkInvalid(c invalidCase, rec *Rec) error {
	group := func(text string) (string, error) {
		g, err := cascadia.ParseGroup(text)
		if err != nil {
			return "", err
		}
		return g.String(), nil
	}
	groupE := func(text string) (string, error) {
		g, err := cascadia.ParseGroupWithPseudoElements(text)
		if err != nil {
			return "", err
		}
		return g.String(), nil
	}
	single := func(text string) (string, error) {
		s, err := cascadia.Parse(text)
		if err != nil {
			return "", err
		}
		return s.String(), nil
	}
	singleE := func(text string) (string, error) {
		s, err := cascadia.ParseWithPseudoElement(text)
		if err != nil {
			return "", err
		}
		return s.String(), nil
	}
	fs := []func(string) (string, error){group, groupE, single, singleE}
	names := []string{"ParseGroup", "ParseGroupWithPseudoElements", "Parse", "ParseWithPseudoElement"}
	for i, bad := range c.Bad {
		for k, f := range fs {
			for _, text := range []string{bad, c.Good[0] + "," + bad, bad + ", " + c.Good[0], " " + bad + " "} {
				if strings.HasSuffix(bad, ",") && text != bad && strings.HasPrefix(text, bad) && strings.TrimSpace(text) != bad {
					continue // it goes on after the comma
				}
				if strings.HasSuffix(bad, "\\") && strings.HasPrefix(strings.TrimLeft(text, " "), bad) && !strings.HasSuffix(text, "\\") {
					continue // the escape has something to escape
				}
				if unclosed(bad) && !strings.HasSuffix(text, bad) {
					continue
				}
				rec.Eval(true, names[k]+text, "rejected")
				if s, err := f(text); err == nil {
					return fmt.Errorf("%s(%q) takes it for the selector %q", names[k], text, s)
				}
			}
		}
		good := c.Good[i]
		want, err := single(good)
		if err != nil {
			return fmt.Errorf("Parse(%q): %v", good, err)
		}
		for k, f := range fs {
			rec.Eval(false, "", "accepted")
			for _, sp := range []string{"", " ", "\n"} {
				if s, err := f(sp + good + sp); err != nil || s != want {
					return fmt.Errorf("%s(%q) = %q, %v, but Parse says %q", names[k], sp+good+sp, s, err, want)
				}
			}
		}
		// a list is the selectors in it
		other := c.Good[(i+1)%len(c.Good)]
		wantOther, err := single(other)
		if err != nil {
			return fmt.Errorf("Parse(%q): %v", other, err)
		}
		list := good + "," + other
		for k, f := range fs {
			s, err := f(list)
			if k < 2 && (err != nil || s != want+", "+wantOther) {
				return fmt.Errorf("%s(%q) = %q, %v", names[k], list, s, err)
			}
			rec.Eval(k >= 2, names[k]+list, label(k >= 2, "list given to a parser of single selectors"))
			if k >= 2 && err == nil {
				return fmt.Errorf("%s(%q) takes a list for the selector %q", names[k], list, s)
			}
		}
		// pseudo-elements only where they are allowed
		elem := c.Elem[i]
		for k, f := range fs {
			s, err := f(elem)
			rec.Eval(k%2 == 0, names[k]+elem, label(k%2 == 0, "pseudo-element where none is allowed"))
			if (err == nil) != (k%2 == 1) {
				return fmt.Errorf("%s(%q) = %q, %v", names[k], elem, s, err)
			}
		}
	}
	return nil
}

// unclosed reports whether text could continue in what comes after it.
func unclosed(s string) bool {
	return strings.Count(s, "(") > strings.Count(s, ")") || strings.Count(s, "[") > strings.Count(s, "]") || strings.ContainsAny(s, "\"'")
}

// C16

type noiseCase struct {
	Texts [][]byte `json:"texts"`
	Tree  *Node    `json:"tree"`
}

var selTokens = []string{
	"a", "p", "*", "*|*", "|", "#", "#a", ".", ".a", "..", "[", "]", "[a", "[a]", "[a=b]", "[a=\"", "=", "~=", "|=", "^=", "$=", "*=", "!=", "#=", "\"", "'", "\"a\"", " i]",
	":", "::", ":not(", ":is(", ":where(", ":has(", ":haschild(", "(", ")", ":contains(", ":containsOwn(", ":matches(", ":matchesOwn(", ":lang(", ":nth-child(", ":nth-last-of-type(",
	"2n+1", "-n", "+", "-", "n", "odd", "even", "99999999999999999999", "9223372036854775807n", "-9223372036854775807n+9223372036854775807", "0n+0", ">", "~", ",", " ", "\t", "\n", "\r\n", "\f",
	"/*", "*/", "/**/", "<!--", "-->", "\\", "\\31", "\\000000", "\\10ffff ", "\\110000", "\\d800 ", "\\\n", "\\ ", "é", "\xff", "\xc3", "\x00", ":hover", "::before", ":before",
	"::-webkit-scrollbar", ":first-child", ":only-of-type", ":root", ":empty", ":enabled", ":checked", ":link", "{", "}", ";", "@", "!", "%", "&", "?", "\u2028", "[a#=(]", "[a#=x]", "(?i)", "[^\"]", "\\)",
}

// longSelectors are selectors in which something is repeated: what comes before it, the unit, what comes after it, and what is repeated then.
var longSelectors = [][4]string{
	{"", "q ", "q"}, {"q", ">q", ""}, {"q", "+q", ""}, {"q", "~ q ", ""}, {"q", "\\:", ""}, {".", "\\61 ", ""}, {"[b=\"", "\\:", "\"]"}, {"[b='", "\\61 ", "']"}, {"[b='", "\\\n", "']"}, {"[b='", "x", "']"}, {"", "q", ""}, {"", "é", ""},
	{"", ":not(", "b", ")"}, {"", ":is(b ", "c", ")"}, {"p", ":where(b>", "c", ")"}, {"", ":has(", "b", ")"}, {"", ":haschild(", "b", ")"}, {"", ":not(", "b"}, {"", ":not(:is(", "b", "))"}, {"", ":has(:not(", "b", "))"},
	{":not(", "b ", "c)"}, {":has(", "b>", "c)"}, {":is(", "b,", "c)"}, {"", "b,", "c"}, {":lang(", "en-", "x)"}, {":nth-child(", "1", ")"}, {":nth-child(", " ", "1)"}, {":contains(", "x", ")"}, {":contains('", "\\'", "')"}, {":matches(", "(", "x", ")"},
	{"p", "#a", ""}, {"p", ".a", ""}, {"p", "[b]", ""}, {"p", ":hover", ""}, {"*", "|*", ""}, {"p", "::before", ""}, {"p", "/**/", ""}, {"", "/*x*/ ", "p"}, {"p", " ", ""}, {"p", "\t", ">p"}, {"/*", "*", "*/p"}, {"", "\\", "p"}, {"", "(", "p", ")"}, {"", "[", "p", "]"},
}

func genNoise(t *rapid.T) noiseCase {
	g := selGen{elem: true, shallow: true}
	c := noiseCase{Tree: g.tree(t)}
	for i := 0; i < 24; i++ {
		var b []byte
		switch uniform(t, "kind", 4) {
		case 0:
			b = rapid.SliceOfN(rapid.Byte(), 0, 24).Draw(t, "bytes")
		case 1:
			for n := between(t, "n", 0, 16); n > 0; n-- {
				b = append(b, pick(t, "token", selTokens)...)
			}
		default:
			b = mutateBytes(t, []byte(groupText(g.group(t), &pen{uniform(t, "style", 1<<12)})), selTokens)
		}
		c.Texts = append(c.Texts, b)
	}
	if chance(t, "deep", 5) {
		open := pick(t, "open", []string{":not(", ":is(.a ", "a > ", "(", ":has(p,", "[", ".a", "\\", ":where(:not("})
		n := between(t, "depth", 1, 3000)
		c.Texts = append(c.Texts, []byte(strings.Repeat(open, n)+"p"+strings.Repeat(")", n*strings.Count(open, "("))))
	}
	if uniform(t, "long", 32) == 31 {
		// time must not grow much faster than the text, and the stack must not overflow
		l := pick(t, "unit", longSelectors)
		n := pick(t, "bytes", []int{70_000, 1_000_000, 1_000_000}) / len(l[1])
		if l[3] != "" && chance(t, "longer", 40) {
			n *= 8
		} else if *flagTier == "thorough" && chance(t, "longest", 5) {
			n *= 12
		}
		c.Texts = append(c.Texts, []byte(l[0]+strings.Repeat(l[1], n)+l[2]+strings.Repeat(l[3], n)))
	}
	return c
}

func checkNoise(c noiseCase, rec *Rec) error {
	c.Tree.link(nil)
	var nodes []*html.Node
	c.Tree.all(func(n *Node) { nodes = append(nodes, n.real) })
	// nodes that belong to no document
	lone := &html.Node{Type: html.ElementNode, Data: "input", DataAtom: atom.Input, Attr: []html.Attribute{{Key: "class", Val: "a"}}}
	withKid := &html.Node{Type: html.ElementNode, Data: "x-y"}
	withKid.AppendChild(&html.Node{Type: html.TextNode, Data: "x"})
	withKid.AppendChild(&html.Node{Type: html.ElementNode, Data: "p", DataAtom: atom.P})
	nodes = append(nodes, lone, withKid, withKid.FirstChild, withKid.LastChild, &html.Node{}, &html.Node{Type: html.TextNode}, &html.Node{Type: html.CommentNode},
		&html.Node{Type: html.DoctypeNode}, &html.Node{Type: html.RawNode, Data: "<p>"}, &html.Node{Type: html.DocumentNode}, &html.Node{Type: html.ElementNode})
	for _, b := range c.Texts {
		text := string(b)
		use := func(s cascadia.Sel) {
			_ = s.String()
			_ = s.PseudoElement()
			s.Specificity()
			for _, n := range nodes {
				s.Match(n)
			}
			s.Match(c.Tree.real)
		}
		n := 0
		if s, err := cascadia.Parse(text); err == nil {
			n++
			use(s)
		}
		if s, err := cascadia.ParseWithPseudoElement(text); err == nil {
			n++
			use(s)
		}
		for _, elem := range []bool{false, true} {
			if g, err := parseGroup(text, elem); err == nil {
				n++
				if len(g) == 0 {
					return fmt.Errorf("%q is a list of no selectors", text)
				}
				for _, s := range g {
					if s == nil {
						return fmt.Errorf("%q has a selector that is nil", text)
					}
					use(s)
				}
				g.Match(c.Tree.real)
				cascadia.QueryAll(c.Tree.real, g)
			}
		}
		rec.Eval(n > 0 || len(text) > 3, text, label(n > 0, "accepted"))
	}
	return nil
}
