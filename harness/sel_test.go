//go:build sel

package zzverif

import (
	"fmt"
	"regexp"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
	"pgregory.net/rapid"
)

// Selectors and documents as plain data, what a selector matches, and how it is written.

type Part struct {
	K   string    `json:"k"` // id class attr pseudo nth func contains regex lang
	N   string    `json:"n,omitempty"`
	Op  string    `json:"op,omitempty"`
	V   string    `json:"v,omitempty"`
	I   bool      `json:"i,omitempty"`
	A   int       `json:"a,omitempty"`
	B   int       `json:"b,omitempty"`
	Sub []Complex `json:"sub,omitempty"`
}

type Compound struct {
	Tag   string `json:"tag,omitempty"` // "" or "*" for any
	Parts []Part `json:"parts,omitempty"`
	Elem  string `json:"elem,omitempty"`
}

// Complex is compounds with combinators between them.
type Complex struct {
	C []Compound `json:"c"`
	X []string   `json:"x,omitempty"`
}

type Node struct {
	NS   string      `json:"ns,omitempty"`  // the namespace, if it is not the one of HTML
	Tag  string      `json:"tag,omitempty"` // "" for text, "!" for a comment, "!d" for a doctype, "/" for a document
	Attr [][2]string `json:"attr,omitempty"`
	Text string      `json:"text,omitempty"` // of a text node, or of a comment if Tag is "!"
	Kids []*Node     `json:"kids,omitempty"`

	parent *Node
	real   *html.Node
}

// link sets the parents and builds the html.Nodes.
func (n *Node) link(parent *Node) *html.Node {
	n.parent = parent
	switch n.Tag {
	case "":
		n.real = &html.Node{Type: html.TextNode, Data: n.Text}
	case "!":
		n.real = &html.Node{Type: html.CommentNode, Data: n.Text}
	case "!d":
		n.real = &html.Node{Type: html.DoctypeNode, Data: n.Text}
	case "/":
		n.real = &html.Node{Type: html.DocumentNode}
	default:
		n.real = &html.Node{Type: html.ElementNode, Data: n.Tag, DataAtom: atom.Lookup([]byte(n.Tag)), Namespace: n.NS}
		for _, a := range n.Attr {
			n.real.Attr = append(n.real.Attr, html.Attribute{Key: a[0], Val: a[1]})
		}
	}
	for _, k := range n.Kids {
		n.real.AppendChild(k.link(n))
	}
	return n.real
}

func (n *Node) isElem() bool { return n.Tag != "" && n.Tag[0] != '!' && n.Tag != "/" }

func (n *Node) attr(k string) (string, bool) {
	for _, a := range n.Attr {
		if a[0] == k {
			return a[1], true
		}
	}
	return "", false
}

func (n *Node) all(f func(*Node)) {
	for _, k := range n.Kids {
		f(k)
		k.all(f)
	}
}

// siblings returns the elements that have the same parent as n, and the position of n among them.
func (n *Node) siblings(tag string) ([]*Node, int) {
	var out []*Node
	at := -1
	for _, k := range n.parent.Kids {
		if k.isElem() && (tag == "" || k.Tag == tag) {
			if k == n {
				at = len(out)
			}
			out = append(out, k)
		}
	}
	return out, at
}

// size is the number of nodes below n.
func (n *Node) size() int {
	size := 0
	for _, k := range n.Kids {
		size += 1 + k.size()
	}
	return size
}

func (n *Node) text() string {
	if n.Tag == "" {
		return n.Text
	}
	if !n.isElem() {
		return ""
	}
	s := ""
	for _, k := range n.Kids {
		s += k.text()
	}
	return s
}

func (n *Node) ownText() string {
	s := ""
	for _, k := range n.Kids {
		if k.Tag == "" {
			s += k.Text
		}
	}
	return s
}

// memo keeps what is known about the nodes of a document, so that deep documents take no time that grows exponentially.
// It is for as long as the document does not change.
// cost is about how many steps matching takes if nothing is remembered.
type memo struct {
	at   map[memoKey]known
	text map[*Node]string
	cost float64
}

type known struct {
	matches bool
	cost    float64
}

type memoKey struct {
	c        *Compound
	n, scope *Node
}

func newMemo() *memo { return &memo{at: map[memoKey]known{}, text: map[*Node]string{}} }

func (m *memo) textOf(n *Node) string {
	t, ok := m.text[n]
	if !ok {
		t = n.text()
		m.text[n] = t
	}
	m.cost += float64(n.size())
	return t
}

func (c Complex) matches(n *Node, m *memo) bool { return c.matchesAt(n, len(c.C)-1, nil, m) }

// matchesAt reports whether the part of c up to i matches n. If there is a scope, all of it must be below that.
func (c Complex) matchesAt(n *Node, i int, scope *Node, m *memo) bool {
	if n == nil || !n.isElem() {
		return false
	}
	key := memoKey{&c.C[i], n, scope}
	if v, ok := m.at[key]; ok {
		m.cost += v.cost
		return v.matches
	}
	before := m.cost
	m.cost += float64(1 + len(c.C[i].Parts))
	matches := c.matchesAnew(n, i, scope, m)
	m.at[key] = known{matches, m.cost - before}
	return matches
}

func (c Complex) matchesAnew(n *Node, i int, scope *Node, m *memo) bool {
	if !c.C[i].matches(n, m) {
		return false
	}
	if i == 0 {
		for p := n.parent; scope != nil && p != scope; p = p.parent {
			if p == nil {
				return false
			}
		}
		return true
	}
	switch c.X[i-1] {
	case ">":
		return c.matchesAt(n.parent, i-1, scope, m)
	case " ":
		for p := n.parent; p != nil; p = p.parent {
			if c.matchesAt(p, i-1, scope, m) {
				return true
			}
		}
	case "+":
		sib, at := n.siblings("")
		return at > 0 && c.matchesAt(sib[at-1], i-1, scope, m)
	case "~":
		sib, at := n.siblings("")
		for _, s := range sib[:at] {
			if c.matchesAt(s, i-1, scope, m) {
				return true
			}
		}
	}
	return false
}

// unclear is set when the argument of :has() matches an element below, but only by way of elements that are not.
// According to CSS that does not count; according to the documentation it does.
var unclear atomic.Bool

func groupMatches(g []Complex, n *Node, m *memo) bool {
	for _, c := range g {
		if c.matches(n, m) {
			return true
		}
	}
	return false
}

// costOf is about how many steps it takes to match all the nodes of a document.
func costOf(g []Complex, tree *Node) float64 {
	m := newMemo()
	tree.all(func(n *Node) { groupMatches(g, n, m) })
	return m.cost
}

func (c Compound) matches(n *Node, m *memo) bool {
	if c.Tag != "" && c.Tag != "*" && asciiLower(c.Tag) != n.Tag {
		return false
	}
	for _, p := range c.Parts {
		if !p.matches(n, m) {
			return false
		}
	}
	return true
}

func htmlFields(s string) []string { return tokens(s) }

func (p Part) matches(n *Node, m *memo) bool {
	switch p.K {
	case "id":
		v, ok := n.attr("id")
		return ok && v == p.V
	case "class":
		v, _ := n.attr("class")
		for _, f := range htmlFields(v) {
			if f == p.V {
				return true
			}
		}
		return false
	case "attr":
		v, ok := n.attr(asciiLower(p.N))
		if p.Op == "" {
			return ok
		}
		w := p.V
		if p.I {
			v, w = asciiLower(v), asciiLower(w)
		}
		if p.Op == "!=" {
			return !ok || v != w
		}
		if !ok {
			return false
		}
		switch p.Op {
		case "=":
			return v == w
		case "~=":
			for _, f := range htmlFields(v) {
				if f == w {
					return true
				}
			}
			return false
		case "|=":
			return v == w || strings.HasPrefix(v, w+"-")
		case "^=":
			return w != "" && strings.HasPrefix(v, w)
		case "$=":
			return w != "" && strings.HasSuffix(v, w)
		case "*=":
			return w != "" && strings.Contains(v, w)
		case "#=":
			return regexp.MustCompile(p.V).MatchString(v)
		}
	case "nth":
		tag := ""
		if strings.HasSuffix(p.N, "of-type") {
			tag = n.Tag
		}
		sib, at := n.siblings(tag)
		i := at + 1
		if strings.Contains(p.N, "last") {
			i = len(sib) - at
		}
		if p.A == 0 {
			return i == p.B
		}
		k := (i - p.B) / p.A // the position is p.A*k + p.B for a k that is not negative
		return k >= 0 && p.A*k+p.B == i
	case "func":
		switch p.N {
		case "not":
			return !groupMatches(p.Sub, n, m)
		case "is", "where":
			return groupMatches(p.Sub, n, m)
		case "has":
			found, inside := false, false
			n.all(func(k *Node) {
				for _, c := range p.Sub {
					found = found || c.matches(k, m)
					inside = inside || c.matchesAt(k, len(c.C)-1, n, m)
				}
			})
			if found != inside {
				unclear.Store(true)
			}
			return found
		case "haschild":
			for _, k := range n.Kids {
				if groupMatches(p.Sub, k, m) {
					return true
				}
			}
			return false
		}
	case "contains":
		text := m.textOf(n)
		if p.N == "containsOwn" {
			text = n.ownText()
		}
		return strings.Contains(strings.ToLower(text), strings.ToLower(p.V))
	case "regex":
		text := m.textOf(n)
		if p.N == "matchesOwn" {
			text = n.ownText()
		}
		return regexp.MustCompile(p.V).MatchString(text)
	case "lang":
		for e := n; e != nil; e = e.parent {
			if v, ok := e.attr("lang"); ok {
				v, w := strings.ToLower(v), strings.ToLower(p.V)
				return v == w || strings.HasPrefix(v, w+"-")
			}
		}
		return false
	case "pseudo":
		return pseudoMatches(p.N, n)
	}
	panic(harnessError("no such selector: " + fmt.Sprint(p)))
}

func pseudoMatches(name string, n *Node) bool {
	sib, at := n.siblings("")
	typ, atTyp := n.siblings(n.Tag)
	switch name {
	case "first-child":
		return at == 0
	case "last-child":
		return at == len(sib)-1
	case "only-child":
		return len(sib) == 1
	case "first-of-type":
		return atTyp == 0
	case "last-of-type":
		return atTyp == len(typ)-1
	case "only-of-type":
		return len(typ) == 1
	case "empty":
		for _, k := range n.Kids {
			if k.isElem() || k.Tag == "" && strings.Trim(k.Text, " \t\n\f\r") != "" {
				return false
			}
		}
		return true
	case "root":
		return n.parent.Tag == "/"
	case "link":
		_, ok := n.attr("href")
		return ok && (n.Tag == "a" || n.Tag == "area" || n.Tag == "link")
	case "input":
		return n.Tag == "input" || n.Tag == "select" || n.Tag == "textarea" || n.Tag == "button"
	case "checked":
		t, _ := n.attr("type")
		_, checked := n.attr("checked")
		t = strings.ToLower(t)
		_, selected := n.attr("selected")
		return n.Tag == "input" && checked && (t == "checkbox" || t == "radio") || n.Tag == "option" && selected
	case "enabled", "disabled":
		switch n.Tag {
		case "button", "input", "select", "textarea", "fieldset", "option", "optgroup":
			return n.disabled() == (name == "disabled")
		}
		return false
	}
	for _, s := range restPS {
		if s == name {
			return false // nobody interacts with a document at rest
		}
	}
	panic(harnessError("no such pseudo-class: " + name))
}

func (n *Node) disabled() bool {
	if _, ok := n.attr("disabled"); ok {
		return true
	}
	switch n.Tag {
	case "optgroup":
		return false
	case "option":
		if n.parent == nil || n.parent.Tag != "optgroup" {
			return false
		}
		_, off := n.parent.attr("disabled")
		return off
	}
	// in a disabled fieldset, except in its first legend
	for c, p := n, n.parent; p != nil; c, p = p, p.parent {
		if _, ok := p.attr("disabled"); !ok || p.Tag != "fieldset" {
			continue
		}
		if c.Tag == "legend" {
			if _, at := c.siblings("legend"); at == 0 {
				continue
			}
		}
		return true
	}
	return false
}

// specificity

type spec [3]int

func (s spec) add(o spec) spec { return spec{s[0] + o[0], s[1] + o[1], s[2] + o[2]} }

func (s spec) less(o spec) bool {
	for i := range s {
		if s[i] != o[i] {
			return s[i] < o[i]
		}
	}
	return false
}

func groupSpec(g []Complex) (max spec) {
	for _, c := range g {
		if s := c.spec(); max.less(s) {
			max = s
		}
	}
	return max
}

func (c Complex) spec() (s spec) {
	for _, x := range c.C {
		s = s.add(x.spec())
	}
	return s
}

func (c Compound) spec() (s spec) {
	if c.Tag != "" && c.Tag != "*" {
		s[2]++
	}
	if c.Elem != "" {
		s[2]++
	}
	for _, p := range c.Parts {
		switch {
		case p.K == "id":
			s[0]++
		case p.K == "func" && p.N == "where":
		case p.K == "func":
			s = s.add(groupSpec(p.Sub))
		default:
			s[1]++
		}
	}
	return s
}

// text

type pen struct{ style int }

func (p *pen) next(n int) int {
	p.style = (p.style*1103515245 + 12345) & 0x7fffffff
	return p.style >> 8 % 0x7fff % n
}

func (p *pen) space() string {
	return []string{"", "", " ", "\n", "\t ", "/* x */", " /* > */ ", "\r\n", "\f", "/**/", "/***/ /* / * */", "/*/ > */"}[p.next(12)]
}

func (p *pen) name(s string) string {
	if p.next(6) == 0 {
		return strings.ToUpper(s)
	}
	return s
}

func asciiUpper(r rune) rune {
	if 'a' <= r && r <= 'z' {
		return r - 'a' + 'A'
	}
	return r
}

// keyword writes a name that is in lower case and whose case does not matter.
func (p *pen) keyword(s string) string {
	if !plainIdent(strings.TrimPrefix(s, "-")) { // it takes some writing
		if p.next(4) == 0 {
			s = strings.Map(asciiUpper, s)
		}
		return p.ident(s)
	}
	switch p.next(12) {
	case 0:
		return p.ident(s)
	case 1:
		return p.ident(strings.ToUpper(s))
	}
	return p.name(s)
}

func (p *pen) ident(s string) string {
	if p.next(4) != 0 {
		return cssEscape(s, p.next(4))
	}
	// some of the characters as code points, with anything that may end them
	rs := []rune(s)
	var b strings.Builder
	for i, r := range rs {
		if r == utf8.RuneError || p.next(3) != 0 && i > 1 && (r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') {
			b.WriteRune(r)
			continue
		}
		b.WriteString(p.codePoint(r, i == len(rs)-1 || strings.ContainsRune("0123456789abcdefABCDEF \t\r\n\f", rs[i+1])))
	}
	return b.String()
}

// codePoint writes a character as an escaped code point. end says that white space has to follow.
func (p *pen) codePoint(r rune, end bool) string {
	h := fmt.Sprintf([]string{"%x", "%X", "%04x", "%06x", "%06X"}[p.next(5)], r)
	if end || p.next(3) == 0 {
		ends := []string{" ", " ", "\t", "\n", "\f", "\r\n", "\r"}
		if end {
			ends = ends[:6] // a line feed may come next
		}
		h += ends[p.next(len(ends))]
	}
	return "\\" + h
}

func (p *pen) str(s string) string {
	q := byte('"')
	if p.next(2) == 0 {
		q = '\''
	}
	var b strings.Builder
	b.WriteByte(q)
	odd := p.next(4) == 0
	rs := []rune(s)
	for i, r := range rs {
		if odd && p.next(3) == 0 {
			b.WriteString([]string{"\\\n", "\\\r\n", "\\\r", "\\\f"}[p.next(4)]) // a line break that does not count
			if r == '\n' {
				b.WriteString("\\a ")
				continue
			}
		}
		switch {
		case odd && p.next(3) == 0 && r != utf8.RuneError:
			b.WriteString(p.codePoint(r, i == len(rs)-1 || strings.ContainsRune("0123456789abcdefABCDEF \t\r\n\f", rs[i+1])))
		case r == rune(q) || r == '\\':
			b.WriteString("\\" + string(r))
		case odd && r > 0x20 && r != 0x7f && !strings.ContainsRune("0123456789abcdefABCDEF", r) && p.next(4) == 0:
			b.WriteString("\\" + string(r))
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, "\\%x ", r)
		case r == 'x' && p.next(4) == 0:
			b.WriteString("\\000078 ")
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte(q)
	return b.String()
}

func groupText(g []Complex, p *pen) string {
	var out []string
	for _, c := range g {
		out = append(out, c.text(p))
	}
	return strings.Join(out, []string{",", ", ", " , ", ",\n"}[p.next(4)])
}

func (c Complex) text(p *pen) string {
	s := c.C[0].text(p)
	for i, x := range c.X {
		sp := p.space()
		if x == " " {
			s += []string{" ", "  ", "\n", " /* > */", "/* x */ "}[p.next(5)]
		} else {
			s += sp + x + p.space()
		}
		s += c.C[i+1].text(p)
	}
	return s
}

func (c Compound) text(p *pen) string {
	s := ""
	if c.Tag == "*" {
		s = "*"
		if p.next(8) == 0 {
			s = "*|*"
		}
	} else if c.Tag != "" {
		s = p.keyword(c.Tag)
	}
	for _, x := range c.Parts {
		if p.next(10) == 0 {
			s += []string{"/**/", "/* . */", "/*/ x */", "/*#*//**/"}[p.next(4)]
		}
		s += x.text(p)
	}
	if c.Elem != "" {
		if p.next(10) == 0 {
			s += "/* x */"
		}
		s += "::" + p.keyword(c.Elem)
	}
	if s == "" {
		s = "*"
	}
	return s
}

func (x Part) text(p *pen) string {
	sp := func() string { return []string{"", "", "", " ", "\t"}[p.next(5)] }
	switch x.K {
	case "id":
		return "#" + p.ident(x.V)
	case "class":
		return "." + p.ident(x.V)
	case "attr":
		s := "[" + sp() + p.keyword(x.N) + sp()
		if x.Op != "" {
			s += x.Op + sp()
			if x.Op == "#=" {
				return s + x.V + "]"
			}
			if plainIdent(x.V) && p.next(2) == 0 {
				s += x.V
				if x.I {
					s += " "
				}
			} else if x.V != "" && p.next(6) == 0 {
				s += p.ident(x.V)
				if x.I {
					s += " "
				}
			} else {
				s += p.str(x.V)
			}
			if x.I {
				s += sp() + []string{"i", "I"}[p.next(2)] + sp()
			} else {
				s += sp()
			}
		}
		return s + "]"
	case "nth":
		return ":" + p.keyword(x.N) + "(" + sp() + x.nth(p) + sp() + ")"
	case "func":
		return ":" + p.keyword(x.N) + "(" + sp() + groupText(x.Sub, p) + sp() + ")"
	case "contains":
		if plainIdent(x.V) && p.next(2) == 0 {
			return ":" + p.name(x.N) + "(" + sp() + x.V + sp() + ")"
		}
		return ":" + p.name(x.N) + "(" + sp() + p.str(x.V) + sp() + ")"
	case "regex":
		return ":" + p.name(x.N) + "(" + sp() + x.V + ")"
	case "lang":
		return ":" + p.keyword("lang") + "(" + sp() + p.ident(x.V) + sp() + ")"
	case "pseudo":
		return ":" + p.keyword(x.N)
	}
	panic(harnessError("no such selector"))
}

func (x Part) nth(p *pen) string {
	if x.A == 2 && x.B == 1 && p.next(2) == 0 {
		return p.name("odd")
	}
	if x.A == 2 && x.B == 0 && p.next(2) == 0 {
		return p.name("even")
	}
	if x.A == 0 && p.next(2) == 0 {
		if x.B > 0 && p.next(3) == 0 {
			return fmt.Sprintf("+%d", x.B)
		}
		return fmt.Sprint(x.B)
	}
	n := []string{"n", "N"}[p.next(2)]
	s := fmt.Sprint(x.A) + n
	if x.A > 0 && p.next(6) == 0 {
		s = []string{"+", "0", "+00"}[p.next(3)] + s
	}
	if p.next(2) == 0 {
		switch x.A {
		case 1:
			s = []string{n, "+" + n}[p.next(2)]
		case -1:
			s = "-" + n
		}
	}
	if x.B == 0 && p.next(2) == 0 {
		return s
	}
	sp := []string{"", " "}[p.next(2)]
	if x.B < 0 {
		return s + sp + "-" + sp + fmt.Sprint(-x.B)
	}
	return s + sp + "+" + sp + fmt.Sprint(x.B)
}

func plainIdent(s string) bool {
	if s == "" {
		return false
	}
	for i, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || i > 0 && (r == '-' || r >= '0' && r <= '9')) {
			return false
		}
	}
	return true
}

// generators

var (
	selTags    = []string{"div", "p", "span", "a", "ul", "li", "input", "button", "section", "area", "link", "select", "textarea", "option", "x-a", "x-b", "x-É", "x-é", "template", "h1", "x-" + strings.Repeat("long-", 14) + "a"}
	formTags   = []string{"div", "p", "input", "button", "select", "textarea", "fieldset", "legend", "span", "form", "option", "optgroup", "a"}
	selClasses = []string{"a", "b", "c", "A", "ab", "a-b", "hover:x", "w-1/2", "x.y", "4", "é"}
	selIds     = []string{"i", "j", "I", "4x", "a:b"}
	longAttr   = "data-" + strings.Repeat("long-", 14) + "x"
	attrNames  = []string{"title", "lang", "href", "data-x", "type", "class", "id", "title", "lang", "href", "data-x", "type", "class", "id", longAttr, "data-É", "data-é"}
	attrVals   = []string{"\u00a0", "\u2003x", "É", "éa", "k", "\u212a", "É-K", "x", "y", "X", "x-y", "x_y", "x-y-z", "x-yz", "a-b-c-d", "x y", "xy", "x-", "-x", "yx", "en", "en-US", "EN", "a b c", "a", "", "x\"y", "x\\y", "x'y", "]", "é", "x,y", "x)y", "x\ty", "0", strings.Repeat("long-", 30) + "x", "x y " + strings.Repeat("z ", 70) + "k"}
	texts      = []string{"x", " ", "Hello", "hello x", "\n\t", "HELLO", "x\"y", "lo", "É", "aé", "ÄX ä", "\u00a0", "\u2003\n", "\v", "x\u00a0y"}
	langs      = []string{"en", "en-US", "EN", "fr", "en-us", "e", "en-GB", "en-US-x", "zh-Hant-TW", "zh-Hant"}
	statePS    = []string{"first-child", "last-child", "only-child", "first-of-type", "last-of-type", "only-of-type", "empty", "root", "link", "input", "checked"}
	restPS     = []string{"hover", "active", "focus", "visited", "target", "focus-within", "focus-visible", "read-only", "popover-open", "fullscreen", "modal",
		"picture-in-picture", "autofill", "host", "-moz-focusring", "-moz-placeholder", "-moz-read-only", "-moz-ui-invalid", "-webkit-scrollbar", "-webkit-scrollbar-button", "-webkit-scrollbar-thumb",
		"-webkit-scrollbar-track", "-webkit-outer-spin-button", "-webkit-search-decoration", "-webkit-file-upload-button"}
	// regular expressions that stay the same if they are parsed and written
	regexes = []string{"x", "^x", "x$", "^$", "[a-z]l+", "^[A-Z]", "(x|y)-?", "\\s", "(?i)hello", ".", "\\d+", "l{2}", "[(x)]"}
)

// The elements of other languages with names in lower case. Siblings of the same name are in the same language.
var foreignTags = map[string][]string{
	"svg":  {"g", "path", "circle", "text", "svg", "title", "a"},
	"math": {"mi", "mo", "mrow"},
}

// asciiLower is what CSS means by ignoring case.
func asciiLower(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'A' && r <= 'Z' {
			r += 'a' - 'A'
		}
		return r
	}, s)
}

type selGen struct {
	shallow    bool // no deep documents
	forms      bool
	elem       bool // pseudo-elements are allowed
	small      bool
	complexHas bool // the arguments of :has() may have combinators
}

func (g selGen) part(t *rapid.T, depth int) Part {
	k := uniform(t, "part", 20)
	if depth <= 0 && k >= 16 {
		k -= 8
	}
	switch {
	case k < 2:
		return Part{K: "id", V: pick(t, "id", selIds)}
	case k < 5:
		return Part{K: "class", V: pick(t, "class", selClasses)}
	case k < 8:
		p := Part{K: "attr", N: pick(t, "attr", attrNames), Op: pick(t, "op", []string{"", "=", "!=", "~=", "|=", "^=", "$=", "*=", "=", "*=", "#="})}
		if p.Op != "" {
			p.V = pick(t, "val", attrVals)
			p.I = chance(t, "i", 25)
		}
		if p.Op == "#=" {
			p.V, p.I = pick(t, "regex", regexes), false
		}
		return p
	case k < 11:
		p := Part{K: "nth", N: pick(t, "nthName", []string{"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"}),
			A: between(t, "a", -3, 4), B: between(t, "b", -4, 6)}
		if chance(t, "bigNth", 15) {
			p.A, p.B = between(t, "bigA", -99, 99), between(t, "bigB", -99, 99)
		}
		return p
	case k < 14:
		ps := statePS
		if chance(t, "rest", 20) {
			ps = restPS
		} else if g.forms {
			ps = append([]string{"enabled", "disabled", "enabled", "disabled", "enabled", "disabled", "enabled", "disabled"}, statePS...)
		}
		return Part{K: "pseudo", N: pick(t, "pseudo", ps)}
	case k < 15:
		if chance(t, "isRegex", 35) {
			return Part{K: "regex", N: pick(t, "matches", []string{"matches", "matchesOwn"}), V: pick(t, "regex", regexes)}
		}
		return Part{K: "contains", N: pick(t, "contains", []string{"contains", "containsOwn"}), V: pick(t, "text", append([]string{"ell", "o X", "X", "é", "Äx", "ä"}, texts...))}
	case k < 16:
		return Part{K: "lang", V: pick(t, "lang", langs)}
	}
	p := Part{K: "func", N: pick(t, "func", []string{"not", "is", "where", "has", "haschild", "not", "is", "not"})}
	n := pick(t, "nSub", []int{1, 1, 1, 2, 3})
	if depth == 2 && chance(t, "manySubs", 3) {
		n = between(t, "nManySubs", 4, 20)
		depth = 1
	}
	for i := 0; i < n; i++ {
		if p.N == "has" && !g.complexHas {
			p.Sub = append(p.Sub, Complex{C: []Compound{g.compound(t, depth-1)}})
		} else {
			p.Sub = append(p.Sub, g.complexSel(t, depth-1))
		}
	}
	return p
}

func (g selGen) compound(t *rapid.T, depth int) Compound {
	var c Compound
	tags := selTags
	if g.forms {
		tags = formTags
	}
	switch k := uniform(t, "tag", 10); {
	case k < 4:
		c.Tag = pick(t, "tagName", tags)
	case k < 6:
		c.Tag = "*"
	}
	n := pick(t, "nParts", []int{0, 1, 1, 1, 2, 3})
	if c.Tag == "" && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		c.Parts = append(c.Parts, g.part(t, depth))
	}
	return c
}

func (g selGen) complexSel(t *rapid.T, depth int) Complex {
	c := Complex{C: []Compound{g.compound(t, depth)}}
	n := pick(t, "nComb", []int{0, 0, 0, 1, 1, 2, 3})
	if g.small && n > 1 {
		n = 1
	}
	combs := []string{" ", ">", "+", "~"}
	if depth == 2 && chance(t, "longChain", 2) {
		n = between(t, "nLongChain", 4, 20)
		combs = combs[1:3]
	}
	for i := 0; i < n; i++ {
		c.X = append(c.X, pick(t, "comb", combs))
		c.C = append(c.C, g.compound(t, depth))
	}
	return c
}

func (g selGen) group(t *rapid.T) []Complex {
	var out []Complex
	n := pick(t, "nGroup", []int{1, 1, 1, 2, 3})
	if chance(t, "bigGroup", 1) {
		n = between(t, "nBigGroup", 4, 40)
	}
	for ; n > 0; n-- {
		c := g.complexSel(t, 2)
		if g.elem && chance(t, "elem", 25) {
			c.C[len(c.C)-1].Elem = pick(t, "elemName", pseudoElems)
		}
		out = append(out, g.nested(t, c, false))
	}
	return out
}

// nested adds deeply nested functional pseudo-classes to a selector, or very many if that is allowed, if only sometimes.
func (g selGen) nested(t *rapid.T, c Complex, many bool) Complex {
	last := &c.C[len(c.C)-1]
	switch {
	case chance(t, "deeplyNested", 1):
		p := Part{K: "class", V: pick(t, "class", selClasses)}
		for i := between(t, "levels", 3, 60); i > 0; i-- {
			p = Part{K: "func", N: pick(t, "level", []string{"is", "where", "not"}), Sub: []Complex{{C: []Compound{{Parts: []Part{p}}}}}}
		}
		last.Parts = append(last.Parts, p)
	case many && uniform(t, "veryMany", 512) == 511:
		for i := between(t, "howMany", 1001, 1200); i > 0; i-- {
			last.Parts = append(last.Parts, Part{K: "func", N: "not", Sub: []Complex{{C: []Compound{{Parts: []Part{{K: "class", V: "zz"}}}}}}})
		}
	}
	return c
}

// guided draws a selector that an element of the document satisfies, or nearly so.
func (g selGen) guided(t *rapid.T, tree *Node) Complex {
	var elems []*Node
	tree.all(func(n *Node) {
		if n.isElem() {
			elems = append(elems, n)
		}
	})
	e := pick(t, "target", elems)
	n := pick(t, "nComb", []int{0, 0, 1, 1, 2, 3})
	if len(elems) > 40 && n > 1 {
		n = 1 // or else it takes too long
	}
	long := chance(t, "longChain", 2)
	if long {
		n = between(t, "nLongChain", 4, 30)
	}
	return g.nested(t, g.guidedFrom(t, e, 2, n, long), len(elems) < 20)
}

// guidedFrom draws a selector with up to n combinators that matches e.
func (g selGen) guidedFrom(t *rapid.T, e *Node, depth, n int, long bool) Complex {
	c := Complex{C: []Compound{g.guidedCompound(t, e, depth)}}
	for ; n > 0; n-- {
		// go on from e to an element that stands in a relation to it
		type way struct {
			x  string
			to *Node
		}
		var ways []way
		if p := e.parent; p.isElem() {
			ways = append(ways, way{">", p})
			for q := p; q.isElem() && !long; q = q.parent {
				ways = append(ways, way{" ", q})
			}
		}
		sib, at := e.siblings("")
		for i := 0; i < at; i++ {
			if !long {
				ways = append(ways, way{"~", sib[i]})
			}
			if i == at-1 {
				ways = append(ways, way{"+", sib[i]}, way{"+", sib[i]})
			}
		}
		if len(ways) == 0 {
			break
		}
		w := pick(t, "way", ways)
		c.X = append([]string{w.x}, c.X...)
		c.C = append([]Compound{g.guidedCompound(t, w.to, min(depth, 1))}, c.C...)
		e = w.to
	}
	return c
}

func (g selGen) guidedCompound(t *rapid.T, e *Node, depth int) Compound {
	var c Compound
	switch k := uniform(t, "tag", 10); {
	case k < 5:
		c.Tag = e.Tag
	case k < 7:
		c.Tag = "*"
	}
	n := pick(t, "nParts", []int{0, 1, 1, 1, 2, 3})
	if c.Tag == "" && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		if chance(t, "unguided", 20) {
			c.Parts = append(c.Parts, g.part(t, depth))
		} else {
			c.Parts = append(c.Parts, g.guidedPart(t, e, depth))
		}
	}
	return c
}

func substring(t *rapid.T, s string) string {
	rs := []rune(s)
	i := uniform(t, "from", len(rs))
	return string(rs[i:between(t, "to", i+1, len(rs))])
}

func (g selGen) guidedPart(t *rapid.T, e *Node, depth int) Part {
	for try := 0; try < 4; try++ {
		switch uniform(t, "guidedPart", 14) {
		case 0, 1:
			if v, ok := e.attr("class"); ok && v != "" {
				if f := htmlFields(v); len(f) > 0 {
					return Part{K: "class", V: pick(t, "class", f)}
				}
			}
		case 2:
			if v, ok := e.attr("id"); ok && v != "" {
				return Part{K: "id", V: v}
			}
		case 3, 4, 5:
			if len(e.Attr) == 0 {
				continue
			}
			a := pick(t, "attr", e.Attr)
			p := Part{K: "attr", N: a[0], Op: pick(t, "op", []string{"", "=", "!=", "~=", "|=", "^=", "$=", "*="}), V: a[1]}
			switch f := htmlFields(a[1]); {
			case p.Op == "":
				p.V = ""
			case p.Op == "!=":
				p.V = pick(t, "val", attrVals)
			case p.Op == "~=" && len(f) > 0:
				p.V = pick(t, "field", f)
			case p.Op == "|=" && strings.Contains(a[1], "-"):
				f := strings.Split(a[1], "-")
				p.V = strings.Join(f[:between(t, "upTo", 1, len(f))], "-")
			case strings.Trim(a[1], " \t\n\r\f") == "":
			case p.Op == "^=", p.Op == "$=", p.Op == "*=":
				for k := 0; k < 4; k++ {
					p.V = substring(t, a[1])
					if p.Op == "^=" {
						p.V = string([]rune(a[1])[:len([]rune(p.V))])
					} else if p.Op == "$=" {
						p.V = string([]rune(a[1])[len([]rune(a[1]))-len([]rune(p.V)):])
					}
					if strings.Trim(p.V, " \t\n\r\f") != "" {
						break
					}
					p.V = a[1]
				}
			}
			if p.Op != "" && chance(t, "i", 25) {
				p.I = true
				if chance(t, "upper", 50) {
					p.V = strings.ToUpper(p.V)
				}
			}
			return p
		case 6, 7:
			p := Part{K: "nth", N: pick(t, "nthName", []string{"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"}), A: between(t, "a", -4, 5)}
			tag := ""
			if strings.HasSuffix(p.N, "of-type") {
				tag = e.Tag
			}
			sib, at := e.siblings(tag)
			i := at + 1
			if strings.Contains(p.N, "last") {
				i = len(sib) - at
			}
			if chance(t, "bigStep", 10) {
				p.A = pick(t, "bigA", []int{-20, -7, 7, 10, 13, 50})
			}
			p.B = i - p.A*uniform(t, "k", 4)
			return p
		case 8, 9:
			var ok []string
			for _, name := range append([]string{"enabled", "disabled"}, statePS...) {
				if (g.forms || !strings.HasSuffix(name, "abled")) && pseudoMatches(name, e) {
					ok = append(ok, name)
				}
			}
			if len(ok) > 0 {
				return Part{K: "pseudo", N: pick(t, "pseudo", ok)}
			}
		case 10:
			own := chance(t, "own", 50)
			text, name := e.text(), "contains"
			if own {
				text, name = e.ownText(), "containsOwn"
			}
			if text != "" {
				return Part{K: "contains", N: name, V: substring(t, text)}
			}
		case 11:
			for p := e; p != nil; p = p.parent {
				if v, ok := p.attr("lang"); ok && plainIdent(v) {
					return Part{K: "lang", V: pick(t, "langPart", []string{v, strings.ToUpper(v), strings.Split(v, "-")[0], v[:max(1, strings.LastIndex(v, "-"))]})}
				}
			}
		case 12:
			if depth <= 0 {
				continue
			}
			if chance(t, "not", 50) {
				p := Part{K: "func", N: "not"}
				for k := pick(t, "nSub", []int{1, 1, 2}); k > 0; k-- {
					p.Sub = append(p.Sub, g.complexSel(t, depth-1))
				}
				return p
			}
			p := Part{K: "func", N: pick(t, "is", []string{"is", "where"}), Sub: []Complex{{C: []Compound{g.guidedCompound(t, e, depth-1)}}}}
			for k := pick(t, "nSub", []int{0, 1, 2}); k > 0; k-- {
				p.Sub = append(p.Sub, g.complexSel(t, depth-1))
			}
			p.Sub = permute(t, "order", p.Sub)
			return p
		case 13:
			if depth <= 0 {
				continue
			}
			p := Part{K: "func", N: pick(t, "has", []string{"has", "haschild"})}
			var below []*Node
			for _, k := range e.Kids {
				if k.isElem() {
					below = append(below, k)
				}
				if p.N == "has" {
					k.all(func(n *Node) {
						if n.isElem() {
							below = append(below, n)
						}
					})
				}
			}
			if len(below) > 0 {
				n := 0
				if (g.complexHas || p.N == "haschild") && chance(t, "complexHas", 30) {
					n = 1
				}
				p.Sub = []Complex{g.guidedFrom(t, pick(t, "below", below), depth-1, n, false)}
				return p
			}
		}
	}
	return g.part(t, depth)
}

// genTree draws a document.
func (g selGen) tree(t *rapid.T) *Node {
	budget := between(t, "nodes", 3, 26)
	tags := selTags
	if g.forms {
		tags = formTags
	}
	doc := &Node{Tag: "/"}
	if chance(t, "doctype", 20) {
		doc.Kids = append(doc.Kids, &Node{Tag: "!d", Text: "html"})
	}
	if chance(t, "topComment", 20) {
		doc.Kids = append(doc.Kids, &Node{Tag: "!", Text: "x"})
	}
	root := &Node{Tag: "html"}
	doc.Kids = append(doc.Kids, root)
	nodes := []*Node{root}
	if !g.shallow && chance(t, "deepDocument", 4) {
		for i := between(t, "depth", 20, 100); i > 0; i-- {
			n := &Node{Tag: pick(t, "deepTag", tags[:4])}
			nodes[len(nodes)-1].Kids = []*Node{n}
			nodes = append(nodes, n)
		}
		nodes = nodes[len(nodes)-1:]
	}
	if chance(t, "wide", 4) {
		// a list with many entries, and other things between them
		width := between(t, "width", 20, map[bool]int{false: 120, true: 40}[g.small])
		if !g.small && !g.shallow && chance(t, "veryWide", 15) {
			width += between(t, "wider", 130, 300)
		}
		for i := width; i > 0; i-- {
			n := &Node{Tag: pick(t, "wideTag", tags[:3])}
			switch uniform(t, "wideKind", 12) {
			case 0:
				n = &Node{Text: "x"}
			case 1:
				n = &Node{Tag: "!", Text: "x"}
			case 2:
				n.Attr = [][2]string{{"class", pick(t, "wideClass", selClasses)}}
			}
			nodes[0].Kids = append(nodes[0].Kids, n)
		}
	}
	if g.forms && chance(t, "fieldset", 60) {
		// a fieldset with legends and other things in any order
		set := &Node{Tag: "fieldset"}
		if chance(t, "disabledSet", 75) {
			set.Attr = [][2]string{{"disabled", ""}}
		}
		for k := between(t, "inSet", 1, 6); k > 0; k-- {
			var n *Node
			switch uniform(t, "setKid", 8) {
			case 0:
				n = &Node{Text: pick(t, "text", texts)}
			case 1:
				n = &Node{Tag: "!", Text: "x"}
			case 2:
				n = &Node{Tag: pick(t, "control", []string{"input", "button", "select", "textarea", "fieldset", "option"})}
			case 3:
				n = &Node{Tag: "div", Kids: []*Node{{Tag: "legend", Kids: []*Node{{Tag: "input"}}}}}
			case 4:
				n = &Node{Tag: "legend", Kids: []*Node{{Tag: "p", Kids: []*Node{{Tag: "button"}}}}}
			default:
				n = &Node{Tag: "legend", Kids: []*Node{{Tag: pick(t, "control", []string{"input", "button", "select", "textarea", "fieldset", "option"})}}}
			}
			set.Kids = append(set.Kids, n)
			if n.isElem() {
				nodes = append(nodes, n)
			}
		}
		nodes[0].Kids = append(nodes[0].Kids, set)
		nodes = append(nodes, set)
	}
	for i := 0; i < budget; i++ {
		// put it under one of the last nodes, mostly
		p := nodes[len(nodes)-1-uniform(t, "under", min(len(nodes), 6))]
		switch k := uniform(t, "kind", 10); {
		case k < 1:
			p.Kids = append(p.Kids, &Node{Text: pick(t, "text", texts)})
		case k < 2:
			p.Kids = append(p.Kids, &Node{Tag: "!", Text: pick(t, "comment", texts)})
		default:
			n := &Node{Tag: pick(t, "tag", tags)}
			switch {
			case p.NS != "":
				n.Tag, n.NS = pick(t, "foreignTag", foreignTags[p.NS]), p.NS
			case chance(t, "foreign", 5):
				n.Tag = pick(t, "foreignRoot", []string{"svg", "svg", "math"})
				n.NS = n.Tag
			}
			if chance(t, "hasClass", 55) {
				cs := sample2(t, "cls", selClasses, between(t, "nCls", 1, 3))
				n.Attr = append(n.Attr, [2]string{"class", strings.Join(cs, pick(t, "sep", []string{" ", "  ", "\t", "\n", "\f", "\r", "\r\n", " \f"}))})
			}
			if chance(t, "hasId", 25) {
				n.Attr = append(n.Attr, [2]string{"id", pick(t, "id", selIds)})
			}
			if chance(t, "manyAttrs", 4) {
				for k := between(t, "nAttrs", 4, 40); k > 0; k-- {
					n.Attr = append(n.Attr, [2]string{fmt.Sprintf("data-%d", k), pick(t, "val", attrVals)})
				}
			}
			for _, a := range []string{"title", "data-x", "href", longAttr, "data-É", "data-é"} {
				if chance(t, a, map[bool]int{false: 25, true: 5}[a == longAttr || strings.HasPrefix(a, "data-\xc3")]) {
					n.Attr = append(n.Attr, [2]string{a, pick(t, "val", attrVals)})
				}
			}
			if chance(t, "hasLang", 20) {
				n.Attr = append(n.Attr, [2]string{"lang", pick(t, "lang", append([]string{"", ""}, langs...))})
			}
			if chance(t, "hasType", 40) {
				n.Attr = append(n.Attr, [2]string{"type", pick(t, "type", []string{"checkbox", "radio", "checkbox", "radio", "text", "CheckBox", "RADIO", " checkbox", "radio ", "checkboxes", ""})})
			}
			if chance(t, "checked", 30) {
				n.Attr = append(n.Attr, [2]string{"checked", ""})
			}
			if chance(t, "disabled", 30) {
				n.Attr = append(n.Attr, [2]string{"disabled", ""})
			}
			if n.Tag == "option" && chance(t, "selected", 40) {
				n.Attr = append(n.Attr, [2]string{"selected", ""})
			}
			for i := range n.Attr {
				// a value that is nearly another one
				if chance(t, "near", 5) {
					c := pick(t, "nearChar", []string{" ", "\n", "_", "-", ".", "x", "\u00a0", "\v", "\u0085", "\ufeff"})
					before := n.Attr[i][1]
					switch v := &n.Attr[i][1]; uniform(t, "nearWhere", 3) {
					case 0:
						*v += c
					case 1:
						*v = c + *v
					default:
						*v += c + *v
					}
					if strings.Trim(n.Attr[i][1], " \n") == "" {
						n.Attr[i][1] = before // values of nothing but white space are a matter of their own
					}
				}
			}
			if chance(t, "textKid", 25) {
				n.Kids = append(n.Kids, &Node{Text: pick(t, "text", texts)})
			}
			p.Kids = append(p.Kids, n)
			nodes = append(nodes, n)
		}
	}
	doc.settleOptions(nil, false)
	return doc
}

// settleOptions disables options that are in a disabled group but not as its children by themselves: whether they
// are disabled anyway depends on the version of the standard.
func (n *Node) settleOptions(parent *Node, in bool) {
	_, off := n.attr("disabled")
	if in && !off && n.Tag == "option" && parent.Tag != "optgroup" {
		n.Attr = append(n.Attr, [2]string{"disabled", ""})
	}
	in = in || off && n.Tag == "optgroup"
	for _, k := range n.Kids {
		k.settleOptions(n, in)
	}
}
