//go:build sel

package zzverif

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"slices"
	"strings"
	"sync"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
	"pgregory.net/rapid"
)

// C28: selectors see the document as it is, change nothing, and can be used at the same time.

// edit is a change of a document.
type edit struct {
	K     string `json:"k"` // attr, unattr, text, tag, move, remove, new
	At    int    `json:"at"`
	To    int    `json:"to,omitempty"`
	Pos   int    `json:"pos,omitempty"`
	Name  string `json:"n,omitempty"`
	Value string `json:"v,omitempty"`
}

// use is something that one of several goroutines does.
type use struct {
	K    string `json:"k"` // all, one, filter, match, text, weight, parse
	Sel  int    `json:"s"`
	From int    `json:"f,omitempty"`
}

type pureCase struct {
	Sels   [][]Complex `json:"sels"`
	Styles []int       `json:"styles"`
	Tree   *Node       `json:"tree"`
	Edits  [][]edit    `json:"edits"`
	Uses   [][]use     `json:"uses"`
}

func init() {
	register("C28",
		"the document has been changed such that the selector matches something else than before, or it is used by several goroutines and matches something",
		genPure, checkPure)
}

func genPure(t *rapid.T) pureCase {
	g := selGen{}
	s := genSelCase(t, g, 7)
	c := pureCase{Sels: s.Sels, Styles: s.Styles, Tree: s.Tree}
	for i := range c.Sels {
		if chance(t, "simple", 60) {
			// a selector that is easily made to match something else
			x := Complex{C: append([]Compound(nil), c.Sels[i][0].C...), X: c.Sels[i][0].X}
			if n := len(x.C); n > 1 && chance(t, "single", 50) {
				x = Complex{C: x.C[n-1:]}
			}
			for j := range x.C {
				if n := len(x.C[j].Parts); n > 0 {
					k := uniform(t, "kept", n)
					x.C[j].Tag, x.C[j].Parts = "", x.C[j].Parts[k:k+1]
				}
			}
			c.Sels[i] = []Complex{x}
		}
		if chance(t, "nearly", 40) {
			near := nearlySame(t, c.Sels[i])
			c.Sels = append(c.Sels, near)
			c.Styles = append(c.Styles, c.Styles[i])
		}
	}
	var parts []*Part
	for _, g := range c.Sels {
		eachPart(g, func(p *Part) {
			if p.K == "class" && len(strings.Fields(p.V)) == 1 || p.K == "id" || p.K == "lang" || p.K == "contains" || p.K == "attr" && p.N != "class" {
				parts = append(parts, p)
			}
		})
	}
	for i := between(t, "nEdits", 1, 5); i > 0; i-- {
		var es []edit
		for k := between(t, "nEdit", 1, 3); k > 0; k-- {
			e := edit{K: pick(t, "edit", []string{"attr", "attr", "attr", "unattr", "text", "text", "tag", "move", "move", "remove", "new"}),
				At: uniform(t, "at", 1<<12), To: uniform(t, "to", 1<<12), Pos: uniform(t, "pos", 1<<12)}
			switch e.K {
			case "attr", "unattr":
				e.Name = pick(t, "name", []string{"class", "class", "id", "title", "lang", "href", "type", "checked", "data-x"})
				switch e.Name {
				case "class":
					e.Value = strings.Join(sample2(t, "cls", selClasses, between(t, "nCls", 1, 3)), " ")
				case "id":
					e.Value = pick(t, "id", selIds)
				case "lang":
					e.Value = pick(t, "lang", langs)
				case "type":
					e.Value = pick(t, "type", []string{"checkbox", "radio", "text"})
				default:
					e.Value = pick(t, "val", attrVals)
				}
			case "text":
				e.Value = pick(t, "text", texts)
			case "tag", "new":
				e.Value = pick(t, "tag", selTags)
			}
			if len(parts) > 0 && chance(t, "relevant", 60) {
				// something that the selectors look at
				switch p := pick(t, "part", parts); p.K {
				case "contains":
					e.K, e.Value = "text", p.V
				case "attr":
					e.K, e.Name, e.Value = pick(t, "set", []string{"attr", "attr", "unattr"}), p.N, p.V
				default:
					e.K, e.Name, e.Value = "attr", p.K, p.V
				}
			}
			es = append(es, e)
		}
		c.Edits = append(c.Edits, es)
	}
	for i := between(t, "nGoroutines", 2, 4); i > 0; i-- {
		var us []use
		for k := between(t, "nUses", 3, 12); k > 0; k-- {
			us = append(us, use{K: pick(t, "use", []string{"all", "one", "filter", "match", "match", "text", "weight", "parse"}),
				Sel: uniform(t, "sel", len(c.Sels)), From: uniform(t, "from", 1<<12)})
		}
		c.Uses = append(c.Uses, us)
	}
	return c
}

// nearlySame returns a copy of a selector that differs in a trifle.
func nearlySame(t *rapid.T, g []Complex) []Complex {
	var out []Complex
	data, _ := json.Marshal(g)
	if json.Unmarshal(data, &out) != nil {
		panic(harnessError("a selector that cannot be copied"))
	}
	var parts []*Part
	eachPart(out, func(p *Part) { parts = append(parts, p) })
	if len(parts) == 0 {
		return out
	}
	p := pick(t, "changed", parts)
	switch p.K {
	case "class", "id":
		if u := strings.ToUpper(p.V); u != p.V {
			p.V = u
		} else {
			p.V = strings.ToLower(p.V)
		}
	case "contains":
		if strings.Contains(p.V, " ") && chance(t, "wider", 50) {
			p.V = strings.Replace(p.V, " ", "  ", 1)
			break
		}
		p.V += pick(t, "more", []string{"x", " ", "\u00a0"})
	case "attr":
		switch {
		case p.Op == "" || p.Op == "#=":
		case chance(t, "flag", 50):
			p.I = !p.I
		case strings.Contains(p.V, " "):
			p.V = strings.Replace(p.V, " ", pick(t, "wider", []string{"  ", "\t"}), 1)
		default:
			p.V += "x"
		}
	case "nth":
		p.B++
	case "func":
		if p.N == "not" {
			p.N = "is"
		} else if p.N == "is" || p.N == "where" {
			p.N = "not"
		}
	}
	return out
}

func (n *Node) nodes() []*Node {
	var out []*Node
	n.all(func(k *Node) { out = append(out, k) })
	return out
}

func (n *Node) elems() []*Node {
	var out []*Node
	n.all(func(k *Node) {
		if k.isElem() {
			out = append(out, k)
		}
	})
	return out
}

func (n *Node) detach() {
	kids := n.parent.Kids
	for i, k := range kids {
		if k == n {
			n.parent.Kids = append(append([]*Node(nil), kids[:i]...), kids[i+1:]...)
		}
	}
	n.real.Parent.RemoveChild(n.real)
	n.parent = nil
}

func (n *Node) insert(k *Node, pos int) {
	pos %= len(n.Kids) + 1
	var before *html.Node
	if pos < len(n.Kids) {
		before = n.Kids[pos].real
	}
	n.real.InsertBefore(k.real, before)
	n.Kids = append(n.Kids[:pos:pos], append([]*Node{k}, n.Kids[pos:]...)...)
	k.parent = n
}

func (n *Node) within(a *Node) bool {
	for ; n != nil; n = n.parent {
		if n == a {
			return true
		}
	}
	return false
}

// apply changes the document and the html.Nodes alike.
func (e edit) apply(doc *Node) {
	elems := doc.elems()
	n := elems[e.At%len(elems)]
	switch e.K {
	case "attr":
		for i := range n.Attr {
			if n.Attr[i][0] == e.Name {
				n.Attr[i][1] = e.Value
				n.real.Attr[i].Val = e.Value
				return
			}
		}
		n.Attr = append(n.Attr, [2]string{e.Name, e.Value})
		n.real.Attr = append(n.real.Attr, html.Attribute{Key: e.Name, Val: e.Value})
	case "unattr":
		for i := range n.Attr {
			if n.Attr[i][0] == e.Name {
				n.Attr = append(append([][2]string(nil), n.Attr[:i]...), n.Attr[i+1:]...)
				n.real.Attr = append(append([]html.Attribute(nil), n.real.Attr[:i]...), n.real.Attr[i+1:]...)
				return
			}
		}
	case "text":
		for _, k := range n.Kids {
			if k.Tag == "" {
				k.Text, k.real.Data = e.Value, e.Value
				return
			}
		}
		k := &Node{Text: e.Value}
		k.link(nil)
		n.insert(k, e.Pos)
	case "tag":
		if n.NS == "" && n.parent != doc {
			n.Tag, n.real.Data, n.real.DataAtom = e.Value, e.Value, atom.Lookup([]byte(e.Value))
		}
	case "new":
		k := &Node{Tag: e.Value}
		k.link(nil)
		n.insert(k, e.Pos)
	case "move", "remove":
		all := doc.nodes()
		k := all[e.To%len(all)]
		if k.parent == doc || n.within(k) {
			return
		}
		k.detach()
		if e.K == "move" {
			n.insert(k, e.Pos)
		}
	}
}

// dump describes a node with everything about it and below it, by identity.
func dump(n *html.Node) string {
	var b strings.Builder
	var walk func(n *html.Node)
	walk = func(n *html.Node) {
		fmt.Fprintf(&b, "%p %p %p %p %p %p %v %v %q %q %q|", n, n.Parent, n.FirstChild, n.LastChild, n.PrevSibling, n.NextSibling, n.Type, n.DataAtom, n.Data, n.Namespace, n.Attr)
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			walk(k)
		}
	}
	walk(n)
	return b.String()
}

func checkPure(c pureCase, rec *Rec) error {
	c.Tree.link(nil)
	doc := c.Tree
	var sels []cascadia.SelectorGroup
	var sources, texts, weights []string
	c.Sels = slices.Clone(c.Sels)
	for i, g := range c.Sels {
		if costOf(g, doc) > maxCost/10 {
			c.Sels[i] = []Complex{{C: []Compound{{Tag: "*"}}}}
		}
	}
	for i, g := range c.Sels {
		text := groupText(g, &pen{c.Styles[i]})
		sel, err := cascadia.ParseGroup(text)
		if err != nil {
			return fmt.Errorf("the selector %q is rejected: %v", text, err)
		}
		sels = append(sels, sel)
		sources = append(sources, text)
		texts = append(texts, sel.String())
		weights = append(weights, fmt.Sprint(sel[0].Specificity()))
	}
	log := doc.String()
	// wanted returns the nodes below doc that each selector should match
	wanted := func() (want [][]*html.Node, match []map[*html.Node]bool) {
		nodes := doc.nodes()
		for _, g := range c.Sels {
			var w []*html.Node
			m := map[*html.Node]bool{}
			known := newMemo()
			for _, n := range nodes {
				if n.isElem() && groupMatches(g, n, known) {
					w = append(w, n.real)
					m[n.real] = true
				}
			}
			want, match = append(want, w), append(match, m)
		}
		return
	}
	last, _ := wanted()
	for step := -1; step < len(c.Edits); step++ {
		if step >= 0 {
			for _, e := range c.Edits[step] {
				e.apply(doc)
			}
			log += fmt.Sprintf("\nthen %v", c.Edits[step])
		}
		want, _ := wanted()
		before := dump(doc.real)
		for i, sel := range sels {
			rec.Eval(step >= 0 && !sameNodes(want[i], last[i]), sources[i]+log, label(step >= 0 && !sameNodes(want[i], last[i]), "matches something else than before"))
			if got := cascadia.QueryAll(doc.real, sel); !sameNodes(got, want[i]) {
				return fmt.Errorf("%q finds %d nodes, not %d, in %v", sources[i], len(got), len(want[i]), log)
			}
			again, err := cascadia.ParseGroup(sources[i])
			if err != nil || again.String() != texts[i] || sel.String() != texts[i] || fmt.Sprint(sel[0].Specificity()) != weights[i] {
				return fmt.Errorf("%q is no longer the same selector as before: %v, %q, %q instead of %q", sources[i], err, again, sel, texts[i])
			}
			if got := cascadia.QueryAll(doc.real, again); !sameNodes(got, want[i]) {
				return fmt.Errorf("%q, parsed again, finds %d nodes, not %d, in %v", sources[i], len(got), len(want[i]), log)
			}
		}
		if dump(doc.real) != before {
			return fmt.Errorf("matching %q changes the document %v", sources, log)
		}
		last = want
	}

	// all at once
	want, match := wanted()
	before := dump(doc.real)
	var list []*html.Node
	for _, n := range doc.nodes() {
		list = append(list, n.real, n.real)
	}
	given := append([]*html.Node(nil), list...)
	work := func(us []use) (err error) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v\n%s", p, debug.Stack())
			}
		}()
		for _, u := range us {
			sel, source := sels[u.Sel], sources[u.Sel]
			switch u.K {
			case "all":
				if got := cascadia.QueryAll(doc.real, sel); !sameNodes(got, want[u.Sel]) {
					return fmt.Errorf("%q finds %d nodes, not %d", source, len(got), len(want[u.Sel]))
				}
			case "one":
				one := cascadia.Query(doc.real, sel)
				if w := want[u.Sel]; len(w) == 0 && one != nil || len(w) > 0 && one != w[0] {
					return fmt.Errorf("%q does not find the first match", source)
				}
			case "filter":
				got := cascadia.Filter(list, sel)
				var w []*html.Node
				for _, n := range want[u.Sel] {
					w = append(w, n, n)
				}
				if !sameNodes(got, w) {
					return fmt.Errorf("%q keeps %d nodes, not %d", source, len(got), len(w))
				}
			case "match":
				n := list[u.From%len(list)]
				if got := sel.Match(n); got != match[u.Sel][n] {
					return fmt.Errorf("%q matches node %d: %v", source, u.From%len(list)/2, got)
				}
			case "text":
				if got := sel.String(); got != texts[u.Sel] {
					return fmt.Errorf("%q is written as %q, not %q", source, got, texts[u.Sel])
				}
			case "weight":
				if got := fmt.Sprint(sel[0].Specificity()); got != weights[u.Sel] {
					return fmt.Errorf("%q weighs %s, not %s", source, got, weights[u.Sel])
				}
			case "parse":
				got, err := cascadia.ParseGroup(source)
				if err != nil || got.String() != texts[u.Sel] {
					return fmt.Errorf("%q is read as %q, %v, not as %q", source, got, err, texts[u.Sel])
				}
			}
		}
		return nil
	}
	var wg sync.WaitGroup
	errs := make([]error, len(c.Uses))
	start := make(chan bool)
	for i := range c.Uses {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			errs[i] = work(c.Uses[i])
		}()
	}
	close(start)
	wg.Wait()
	for i, err := range errs {
		for _, u := range c.Uses[i] {
			rec.Eval(len(want[u.Sel]) > 0, fmt.Sprint(sources[u.Sel], i, c.Uses, log), label(true, "at the same time"))
		}
		if err != nil {
			return fmt.Errorf("while others are at it, %v, in %v", err, log)
		}
	}
	if dump(doc.real) != before {
		return fmt.Errorf("using %q changes the document %v", sources, log)
	}
	if !sameNodes(list, given) {
		return fmt.Errorf("filtering by %q changes the list of nodes that was given", sources)
	}
	return nil
}
