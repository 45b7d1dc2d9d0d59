package zzverif

import (
	"fmt"
	"math/bits"
	"slices"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// The stylesheets that the properties of the merger are decided on are generated as plain data.
// What a stylesheet means is read off that data, never off its text.

// Decl is a declaration. Imp is how !important is spelled, if at all.
type Decl struct {
	Prop string `json:"p"`
	Val  string `json:"v"`
	Imp  string `json:"i,omitempty"`
}

// At is a conditional group rule around a rule. Cond "" always applies.
type At struct {
	Name string `json:"n"`
	Cond string `json:"c"`
}

// Circ is a circumstance: what has to be the case for a rule to apply, apart from the class.
type Circ struct {
	At     []At     `json:"at,omitempty"`
	Tmpl   string   `json:"t"`            // a selector where & stands for the class and its pseudo-classes
	Pseudo []string `json:"ps,omitempty"` // the pseudo-classes of the class, in no particular order if Tmpl is "&"
	Elem   string   `json:"e,omitempty"`  // the pseudo-element
	Post   []string `json:"po,omitempty"` // pseudo-classes after a -webkit- pseudo-element
	Ctx    string   `json:"x,omitempty"`  // a name that stands in Tmpl: % is the name and $ the text in a string
}

// fill puts the name Ctx into a selector.
func (c Circ) fill(selector string, style int) string {
	if c.Ctx == "" {
		return selector
	}
	selector = strings.ReplaceAll(selector, "$", strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "'", "\\'").Replace(c.Ctx))
	return strings.ReplaceAll(selector, "%", cssEscape(c.Ctx, style))
}

// Rule is the rule of one class.
type Rule struct {
	Class string `json:"class"`
	Circ  Circ   `json:"circ"`
	Decls []Decl `json:"decls"`
}

// key identifies a circumstance: two classes are in the same one iff their keys are equal.
func (c Circ) key() string {
	var b strings.Builder
	for _, a := range c.At {
		if a.Cond != "" {
			fmt.Fprintf(&b, "%s %s|", a.Name, a.Cond)
		}
	}
	// the pseudo-classes are the same whether they are in Pseudo or in Tmpl
	ps := append([]string(nil), c.Pseudo...)
	sort.Strings(ps)
	b.WriteString(c.fill(strings.ReplaceAll(c.Tmpl, "&", "&"+strings.Join(ps, "")), 0))
	b.WriteString("|" + c.Elem)
	po := append([]string(nil), c.Post...)
	sort.Strings(po)
	b.WriteString("|" + strings.Join(po, ""))
	return b.String()
}

func (c Circ) plain() bool {
	return c.key() == Circ{Tmpl: "&"}.key()
}

// cssEscape writes a class name as a CSS identifier. style selects among the spellings CSS allows.
func cssEscape(name string, style int) string {
	var b strings.Builder
	six := func(i int, r rune) {
		fmt.Fprintf(&b, "\\%06x", r)
		if i+utf8.RuneLen(r) == len(name) {
			b.WriteByte(' ') // or else the escape would swallow the white space that comes next
		}
	}
	for i, r := range name {
		switch {
		case r == utf8.RuneError:
			b.WriteRune(r)
		case r >= '0' && r <= '9' && (i == 0 || i == 1 && name[0] == '-'):
			if style%2 == 0 {
				fmt.Fprintf(&b, "\\%x ", r)
			} else {
				six(i, r)
			}
		case i == 0 && r == '-' && len(name) == 1:
			b.WriteString("\\-")
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_':
			// hex escapes of ordinary characters are allowed as well
			if style == 3 && i > 0 {
				six(i, r)
			} else {
				b.WriteRune(r)
			}
		case r >= 0x80:
			if style >= 2 {
				fmt.Fprintf(&b, "\\%x ", r)
			} else {
				b.WriteRune(r)
			}
		case r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, "\\%x ", r)
		default:
			switch style {
			case 1:
				fmt.Fprintf(&b, "\\%x ", r)
			case 2:
				six(i, r)
			default:
				b.WriteByte('\\')
				b.WriteRune(r)
			}
		}
	}
	return b.String()
}

// selectorText renders the selector of a rule. style varies the spelling.
func (r Rule) selectorText(style int) string {
	ps := append([]string(nil), r.Circ.Pseudo...)
	if r.Circ.Tmpl != "&" {
		sort.Strings(ps)
	}
	sp := speller(style / 4)
	s := "." + cssEscape(r.Class, style%4)
	for _, p := range ps {
		s += sp.pseudo(p)
	}
	out := sp.selector(r.Circ.Tmpl)
	if r.Circ.Ctx != "" {
		parts := strings.Split(out, "&") // the name may hold an ampersand
		for i := range parts {
			parts[i] = r.Circ.fill(parts[i], style/16%4)
		}
		out = strings.Join(parts, s)
	} else {
		out = strings.ReplaceAll(out, "&", s)
	}
	if e := r.Circ.Elem; e != "" {
		colons := "::"
		if (e == "before" || e == "after" || e == "first-line" || e == "first-letter") && sp.next(6) == 1 {
			colons = ":" // as it was written in the old days
		}
		out += colons + sp.name(e)
		for _, p := range r.Circ.Post {
			out += sp.pseudo(p)
		}
	}
	return out
}

// speller writes selectors in other ways that mean the same. The speller 0 writes them as they are.
type spelling struct{ state int }

func speller(seed int) *spelling { return &spelling{seed % 16} }

func (p *spelling) next(n int) int {
	if p.state == 0 {
		return 0
	}
	p.state = (p.state*1103515245 + 12345) & 0x7fffffff
	return p.state >> 8 % n
}

func (p *spelling) name(s string) string {
	switch p.next(6) {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

func (p *spelling) pseudo(s string) string {
	name, arg, hasArg := strings.Cut(s, "(")
	if !hasArg {
		return p.name(name)
	}
	arg = strings.TrimSuffix(arg, ")")
	if strings.HasPrefix(name, ":nth-") {
		switch {
		case arg == "2n+1":
			arg = []string{arg, "odd", "2n + 1", "ODD", "2N+1", "+2n+1"}[p.next(6)]
		case arg == "2n":
			arg = []string{arg, "even", "2n+0", "Even"}[p.next(4)]
		case p.next(3) == 1:
			arg = "0n+" + arg
		}
	}
	arg = strings.ReplaceAll(arg, ", ", []string{", ", ",", " , "}[p.next(3)])
	pad := []string{"", "", " ", "\n"}[p.next(4)]
	if name == ":lang" {
		pad = ""
	}
	return p.name(name) + "(" + pad + arg + pad + ")"
}

func (p *spelling) selector(tmpl string) string {
	for _, x := range []string{" > ", " + ", " ~ "} {
		tmpl = strings.ReplaceAll(tmpl, x, []string{x, strings.TrimSpace(x), strings.TrimRight(x, " "), "\n" + x, x + "\t"}[p.next(5)])
	}
	if p.next(3) == 1 {
		tmpl = strings.ReplaceAll(tmpl, "\"", "'")
	}
	if p.next(4) == 1 {
		tmpl = strings.ReplaceAll(tmpl, "div&", "DIV&")
		tmpl = strings.ReplaceAll(tmpl, "p.zz", "P.zz")
	}
	if p.next(4) == 1 {
		tmpl = strings.ReplaceAll(tmpl, ":hover", ":Hover")
		tmpl = strings.ReplaceAll(tmpl, ":is(", ":IS( ")
	}
	return strings.ReplaceAll(tmpl, ", ", []string{", ", ",", " ,\n"}[p.next(3)])
}

func (d Decl) text(style int) string {
	sep := []string{":", ": ", " : ", ":\n\t"}[style%4]
	if strings.HasPrefix(d.Prop, "--") {
		sep = []string{":", ": "}[style%2]
		return cssVar(d.Prop, style/3%8) + sep + d.Val + d.Imp
	}
	p := d.Prop
	if style%7 == 3 {
		p = strings.ToUpper(p)
	}
	return p + sep + d.Val + d.Imp
}

// ruleText renders a rule without its at-rules.
func (r Rule) ruleText(style int) string {
	ds := make([]string, len(r.Decls))
	for i, d := range r.Decls {
		ds[i] = d.text(style + i)
	}
	switch style % 4 {
	case 1:
		return r.selectorText(style/4) + " {\n  " + strings.Join(ds, ";\n  ") + ";\n}\n"
	case 2:
		return "/* c */ " + r.selectorText(style/4) + "/* { */{ /* } */" + strings.Join(ds, "; /* ; */ ") + "}"
	case 3:
		return "\t" + r.selectorText(style/4) + "\r\n{" + strings.Join(ds, " ; ") + " ; }\r\n"
	}
	return r.selectorText(style/4) + "{" + strings.Join(ds, ";") + "}"
}

func (r Rule) text(style int) string {
	s := r.ruleText(style)
	for i := len(r.Circ.At) - 1; i >= 0; i-- {
		head := r.Circ.At[i].text(style + i)
		switch style % 3 {
		case 0:
			s = head + "{" + s + "}"
		case 1:
			s = head + " {\n" + s + "\n}\n"
		default:
			s = head + "  /* x */ { " + s + " }"
		}
	}
	return s
}

// text writes the at-rule without its block. style varies the spelling: the case, white space and comments where they
// do not matter. The style 0 is the plain one.
func (a At) text(style int) string {
	p := &spelling{style % 64}
	c := a.Cond
	name := a.Name
	if p.next(6) == 1 {
		name = strings.ToUpper(name)
	}
	if c == "" {
		return name
	}
	if a.Name == "@media" && !strings.Contains(c, "--") {
		switch p.next(6) {
		case 1:
			c = strings.ToUpper(c)
		case 2:
			c = strings.ToUpper(c[:2]) + c[2:]
		}
	}
	replace := func(old string, news ...string) {
		c = strings.ReplaceAll(c, old, news[p.next(len(news))])
	}
	replace(":", ":", " : ", ": ", ":\n", ":/* : */")
	replace("(", "(", "( ", "(\t")
	replace(")", ")", " )", "\n)")
	replace(",", ",", ", ", " , ", ",/* , */")
	replace(" and ", " and ", "  and\n", " and /* x */ ", " /* and */ and ")
	if a.Name == "@media" {
		replace(") and", ") and", ")/* x */and", ")\nand")
	}
	if !strings.Contains(c, "/*") {
		replace(">=", ">=", " >= ", ">= ", " >=")
		replace("<=", "<=", " <= ", "<= ", " <=")
		replace("/", "/", " / ")
	}
	return name + []string{" ", "  ", "\n", "/* { */ "}[p.next(4)] + c
}

// Sheet is a stylesheet with one rule for each class.
type Sheet struct {
	Rules []Rule `json:"rules"`
	Style []int  `json:"style,omitempty"`
	// Fill is how many rules of classes that are in no list stand before each rule, to make it a long stylesheet.
	Fill int `json:"fill,omitempty"`
	// Pad is the length of a comment before each rule, for the same purpose.
	Pad int `json:"pad,omitempty"`
}

// filler writes the rules that stand before rule i.
func (s Sheet) filler(i int) string {
	var b strings.Builder
	if s.Pad > 0 {
		fmt.Fprintf(&b, "/*%s*/", strings.Repeat(".pad{color:red} ", s.Pad/16+1))
	}
	for k := 0; k < s.Fill; k++ {
		fmt.Fprintf(&b, ".zfill-%d-%d{zcolor:%d}", i, k, k)
	}
	return b.String()
}

// genFill draws the number of rules between two rules: mostly none, sometimes many.
func genFill(t *rapid.T, percent int) int {
	if !chance(t, "fill", percent) {
		return 0
	}
	return pick(t, "nFill", []int{3, 10, 33, 70, 140, 300})
}

// genBulk makes a few of the stylesheets very long.
func genBulk(t *rapid.T, s *Sheet) {
	switch uniform(t, "bulk", 512) {
	case 511, 510:
		s.Pad = pick(t, "pad", []int{3000, 30000, 100000}) / max(1, len(s.Rules)/4)
	case 509:
		s.Fill = pick(t, "hugeFill", []int{1200, 3000, 11000})/max(1, len(s.Rules)) + 1
	}
}

func (s Sheet) style(i int) int {
	if len(s.Style) == 0 {
		return 0
	}
	return s.Style[i%len(s.Style)]
}

func (s Sheet) text() string {
	var b strings.Builder
	var open []At // the at-rules that are still open
	closeTo := func(n int) {
		for ; len(open) > n; open = open[:len(open)-1] {
			b.WriteString("}")
		}
	}
	for i, r := range s.Rules {
		st := s.style(i)
		if len(open) == 0 {
			b.WriteString(s.filler(i))
		}
		// sometimes put rules with the same at-rules into one block
		common := 0
		for common < len(open) && common < len(r.Circ.At) && open[common] == r.Circ.At[common] {
			common++
		}
		closeTo(common)
		if st%2 == 0 && common == 0 {
			b.WriteString(r.text(st))
		} else {
			for _, a := range r.Circ.At[common:] {
				b.WriteString(a.text(st+len(open)) + " {")
				open = append(open, a)
			}
			b.WriteString(r.ruleText(st))
			if st%4 == 3 {
				closeTo(0)
			}
		}
		if st%5 == 2 {
			b.WriteString("\n")
		}
	}
	closeTo(0)
	return b.String()
}

func (s Sheet) find(class string) *Rule {
	for i := range s.Rules {
		if s.Rules[i].Class == class {
			return &s.Rules[i]
		}
	}
	return nil
}

// generators

// bitsGen draws k bits. The integer generators of rapid favour small numbers, which is not wanted everywhere.
var bitsGens = func() (out [24]*rapid.Generator[int]) {
	for k := range out {
		k := k
		out[k] = rapid.Custom(func(t *rapid.T) int {
			n := 0
			for i := 0; i < k; i++ {
				n <<= 1
				if rapid.Bool().Draw(t, "") {
					n |= 1
				}
			}
			return n
		})
	}
	return out
}()

// uniform draws a number below n, all of them (almost) equally likely.
func uniform(t *rapid.T, label string, n int) int {
	if n < 2 {
		return 0
	}
	if n&(n-1) == 0 {
		return bitsGens[bits.Len(uint(n-1))].Draw(t, label)
	}
	k := bits.Len(uint(n-1)) + 3
	return bitsGens[k].Draw(t, label) * n >> k
}

func pick[T any](t *rapid.T, label string, xs []T) T {
	return xs[uniform(t, label, len(xs))]
}

func chance(t *rapid.T, label string, percent int) bool {
	return uniform(t, label, 100) >= 100-percent
}

func between(t *rapid.T, label string, lo, hi int) int {
	return lo + uniform(t, label, hi-lo+1)
}

func permute[T any](t *rapid.T, label string, xs []T) []T {
	out := append([]T(nil), xs...)
	for i := len(out) - 1; i > 0; i-- {
		j := uniform(t, label, i+1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func sample[T any](t *rapid.T, label string, xs []T, n int) []T {
	out := permute(t, label, xs)
	if n > len(out) {
		n = len(out)
	}
	return out[:n]
}

// classPool has names that differ in every way that a mistake in splitting, escaping or comparing would need.
var classPool = []string{
	"a", "b", "c", "A", "ab", "a-b", "a_b", "p", "p-1", "p-10", "p-1.5", "-m-1", "m-1", "p_1",
	"w-1/2", "w-[calc(100%-1rem)]", "hover:p-1", "focus:hover:p-1", "md:p-1", "sm:hover:p-1", "2xl:p-1", "2xl", "4", "-4x",
	"!p-1", "p-1!", "[&>*]:p-1", "[&_p]:m-1", "[&:hover]:p-1", "before:content-['x']", "bg-[url('a.png')]", "bg-[url(\"a.png\")]",
	"text-[#fff]", "text-[color:var(--x)]", "[--x:1px]", "group-hover:p-1", "peer-[.b]:p-1", "has-[:checked]:p-1",
	"data-[state=open]:p-1", "aria-[sort=asc]:p-1", "supports-[display:grid]:p-1", "*:p-1", "@md:p-1", "@[17.5rem]:p-1",
	"grid-cols-[1fr,auto]", "m-[-1px]", "a,b", "a+b", "a~b", "a|b", "a>b", "a*b", "a^b", "a$b", "a%b", "a&b", "a=b", "a?b", "a;b",
	"a{b", "a}b", "{}", "(x)", "[x]", "<x>", "#id", ".dot", "a.b", "a..b", "a:b", "a::b", "a\\b", "\\", "a'b", "a\"b", "a`b", "a/*b*/",
	"é", "日本", "ä-1", "🙂", "x🙂y", "not", "is", "hover", "before", "media", "__x", "--x", "-", "_", "a--b", "x-", "a:hover", "a:before",
	"a!", "important", "!important", "var(--a)", "--a", "color",
}

// collisions are pairs of words with the same hash: FNV-1a (64 bits, 32 bits), FNV-1, CRC-32, CRC-32C, Adler-32,
// polynomials with the factors 31, 33, 131, 65599 and 16777619, and a plain sum. Most of them collide before any
// common ending, and many within any text.
var collisions = [][2]string{
	{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"}, {"costarring", "liquid"}, {"declinate", "macallums"}, {"creamwove", "quists"},
	{"tweegfk", "arc1vgm"}, {"plumless", "buckeroo"}, {"kxlgdyz", "gx9x8bh"}, {"ovnkuas", "an1wif7"}, {"w2atbf0", "bn7ljh1"}, {"Aa", "BB"},
	{"Az", "BY"}, {"yzp0mus", "yx0rmus"}, {"swlchik", "bk1sllz"}, {"k28xnqw", "nj6y4fv"}, {"l0egyg4", "nc0njvk"}, {"ab", "ba"}, {"bbb", "cac"},
}

func genClassName(t *rapid.T) string {
	if chance(t, "longName", 1) {
		return strings.Repeat(pick(t, "longPart", []string{"a", "ab-", "[&:hover]:", "é"}), between(t, "times", 20, 120)) + pick(t, "longEnd", []string{"", "1", "2"})
	}
	switch between(t, "className", 0, 9) {
	case 0, 1, 2:
		return rapid.StringMatching(`[a-f][a-f0-9]{0,2}`).Draw(t, "plain")
	case 3, 4, 5, 6, 7:
		return pick(t, "pool", classPool)
	case 8:
		return pick(t, "prefix", []string{"", "hover:", "md:", "-", "!", "2xl:", "[&>a]:", "group-hover/x:"}) +
			pick(t, "stem", []string{"p", "m", "w", "text", "bg", "a", "a-b"}) +
			pick(t, "suffix", []string{"", "-1", "-1.5", "-1/2", "-[1px]", "-[1px,2px]", "-[#f00]", "-x", "!"})
	default:
		return rapid.StringOfN(rapid.RuneFrom([]rune("ab01-_:/.[]()&>~+*,'\"!@#$%^={}|\\;<?`é日🙂")), 1, 6, -1).Draw(t, "any")
	}
}

// genClasses returns n different class names.
func genClasses(t *rapid.T, lo, hi int) []string {
	n := between(t, "nClasses", lo, hi)
	out := make([]string, 0, n)
	seen := map[string]bool{}
	if n > 1 && chance(t, "collision", 1) {
		for _, c := range pick(t, "colliding", collisions) {
			seen[c] = true
			out = append(out, c)
		}
	}
	for i := len(out); i < n; i++ {
		c := genClassName(t)
		if seen[c] {
			c = fmt.Sprintf("%s-%d", c, i)
		}
		for seen[c] {
			c += "x"
		}
		seen[c] = true
		out = append(out, c)
	}
	return out
}

var (
	pseudoClasses = []string{
		":hover", ":focus", ":active", ":visited", ":target", ":focus-within", ":focus-visible", ":checked", ":disabled", ":enabled",
		":first-child", ":last-child", ":only-child", ":first-of-type", ":last-of-type", ":only-of-type", ":empty", ":root", ":link",
		":nth-child(2n+1)", ":nth-child(2n)", ":nth-child(3)", ":nth-last-child(2n+1)", ":nth-of-type(2n+1)", ":nth-last-of-type(3)",
		":not(.zz)", ":not(.zy)", ":not(:first-child)", ":not(.zz, .zy)", ":has(img)", ":has(a)", ":lang(en)", ":lang(fr)",
		":read-only", ":popover-open", ":autofill", ":fullscreen", ":modal", ":picture-in-picture", ":input", ":host",
		":-moz-focusring", ":-moz-ui-invalid", ":contains(\"x\")", ":containsOwn(\"x\")", ":haschild(p)",
	}
	pseudoElems = []string{
		"before", "after", "backdrop", "cue", "first-letter", "first-line", "grammar-error", "marker", "placeholder", "selection", "spelling-error",
	}
	// these are parsed in another way than the ones above
	webkitElems = []string{
		"-webkit-scrollbar", "-webkit-scrollbar-thumb", "-webkit-scrollbar-track", "-webkit-scrollbar-button", "-webkit-file-upload-button",
		"-webkit-search-decoration", "-webkit-outer-spin-button",
	}
	templates = []string{
		"& > *", "& > :not([hidden]) ~ :not([hidden])", ".zdark &", ".zdark & > p", "& + &", "& ~ p", "& + p", "& p", "& > p", "p > &", "p &", "p.zz&",
		"&[open]", "&[title=\"x\"]", "&.zopen", ".zgroup:hover &", ".zgroup:focus &", ".zpeer:checked ~ &", "div&", "#zid &", "&#zid",
		":is(.zdark &)", "&:is(.zx, .zy)", "&:is(:hover, :focus)", "&:where(.zdark, .zdark *)", ":where(&)", ":where(& > p)", ":is(&, .zx)", ":is(.zx, &)", ":is(.zx, p &):hover", ":where(.zdark &, .zx &)", "&:not(.zx, .zy)", ":is(p, .zx) > &", "& > * + *",
		":is(p.zx, &)", ":is(.zdark .zx, &)", ":where(.zx:hover, .zy, &)", ":is(p, &, .zx)", ":is(:is(p, &), .zx .zy)", ":where([open], &, p > .zx)",
		"div:is(&)", "*:is(&)", "div:where(&, .zx)", "& .zin:hover", "[dir=\"rtl\"] &", "[dir=\"ltr\"] &", "&:is(:hover)",
		".zdark div&", ".zgroup:hover > div&", "p + [open]& > p", "div& p ~ p", ".zdark > p > div&",
		"& > p > div > a > b > i", "p & > p > a + b ~ i", ".zx .zy .zdark p &", ".zx > .zy > .zdark > p > div > &", ".zx + & ~ p ~ a ~ b ~ i",
	}
	// templateTwins are templates that look alike and mean different things.
	templateTwins = [][]string{
		{".zgroup\\:focus &", ".zgroup:focus &"}, {"#zid\\.zx &", "#zid.zx &", "#zid .zx &"}, {".zx .zy &", ".zx.zy &", ".zx > .zy &", ".zy .zx &", ".zx\\ \\.zy &", ".zx\\.zy &"},
		{"& p", "& > p", "& + p", "& ~ p", "p &"}, {"&[title=\"x\"]", "&[title=\"x\" i]", "&[title~=\"x\"]", "&[title=\"x \"]", "&[title=\"X\"]", "&[title|=\"x\"]", "&[title]"},
		{".zdark &", ".zDark &", ".zdarks &"}, {"&:is(.zx)", "&:not(.zx)", "&:where(.zx)", "&:has(.zx)", "&.zx", "&:haschild(.zx)"},
		{"&:nth-child(2n+1) > p", "&:nth-child(2n) > p", "&:nth-last-child(2n+1) > p", "&:nth-of-type(2n+1) > p", "&:nth-child(-2n+1) > p", "&:first-child > p", "&:last-child > p"},
		{"& + &", "& ~ &", "& &", "& > &"}, {":contains(\"x\") > &", ":containsOwn(\"x\") > &", ":contains(\"x \") > &"}, {":lang(en) &", ":lang(en-us) &"},
		{".zx:hover > .zy &", ".zx > .zy:hover &", ".zx > .zy &:hover"}, {"&.zx.zy", "&.zy", "&.zx\\.zy", "&.zxzy"},
	}
	mediaConds = []string{
		"(min-width:640px)", "(min-width:768px)", "(min-width:64px)", "(max-width:640px)", "print", "screen", "(prefers-color-scheme:dark)",
		"(hover:hover) and (pointer:fine)", "(hover:hover) or (pointer:fine)", "(min-resolution:1.5dppx)", "(min-resolution:15dppx)", "not all and (min-width:640px)", "screen,print", "(min-width:640px) and (max-width:768px)",
		"(orientation:portrait)", "(min-resolution:2dppx)", "(width>=640px)", "(width>640px)", "(width<=640px)", "(400px<=width<=640px)", "(400px<width<640px)",
		"(min-aspect-ratio:16/9)", "(min-aspect-ratio:1/69)", "only screen and (width>=640px)", "(--a)", "(--A)",
	}
	supportsConds = []string{
		"(font-family:\"A\")", "(font-family:\"a\")", "(--A:1)", "(--a:1)", "selector(.A)", "selector(.a)",
		"(display:grid)", "not (display:grid)", "(aspect-ratio:1/2)", "selector(.a>.b)", "selector(.a .b)", "selector(.a.b)", "(display:grid) and (gap:1px)", "(backdrop-filter:blur(1px))", "(min-width:640px)",
	}
)

func genAt(t *rapid.T) []At {
	n := pick(t, "nAt", []int{0, 0, 0, 0, 1, 1, 1, 2, 3})
	if chance(t, "manyAts", 1) {
		n = between(t, "nManyAts", 4, 12)
	}
	out := make([]At, 0, n)
	seen := map[At]bool{}
	for i := 0; i < n; i++ {
		a := At{Name: "@media"}
		switch {
		case chance(t, "supports", 25):
			a.Name = "@supports"
			a.Cond = pick(t, "supportsCond", supportsConds)
		case chance(t, "always", 8):
			a.Cond = ""
		default:
			a.Cond = pick(t, "mediaCond", mediaConds)
		}
		if a.Cond != "" && seen[a] {
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	return out
}

func genPseudos(t *rapid.T, max int) []string {
	n := between(t, "nPseudo", 0, max)
	return sample2(t, "pseudo", pseudoClasses, n)
}

// sample2 picks up to n different elements without permuting all of xs.
func sample2(t *rapid.T, label string, xs []string, n int) []string {
	var out []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		x := pick(t, label, xs)
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func genCirc(t *rapid.T) Circ {
	c := Circ{Tmpl: "&", At: genAt(t)}
	if chance(t, "endsInName", 4) {
		c.At = []At{{"@media", pick(t, "medium", []string{"print", "screen"})}}
		c.Tmpl = pick(t, "endsIn", []string{"& > p", "& p", "& ~ p", "& + p"})
		if chance(t, "endsInPseudo", 20) {
			c.Pseudo = []string{":hover"}
		}
		return c
	}
	switch between(t, "circ", 0, 9) {
	case 0, 1:
	case 2, 3, 4:
		c.Pseudo = genPseudos(t, 3)
	case 5, 6:
		c.Pseudo = genPseudos(t, 2)
		c.Elem = pick(t, "elem", pseudoElems)
	case 7:
		c.Pseudo = genPseudos(t, 1)
		c.Elem = pick(t, "webkit", webkitElems)
		c.Post = genPseudos(t, 1)
	default:
		c.Tmpl = pick(t, "tmpl", templates)
		if chance(t, "tmplPseudo", 40) && !strings.HasPrefix(c.Tmpl, "p.zz") {
			c.Pseudo = genPseudos(t, 1)
		}
		if chance(t, "tmplElem", 15) && strings.HasSuffix(c.Tmpl, " &") {
			c.Elem = pick(t, "elem", pseudoElems)
		}
	}
	return c
}

// shuffleCirc returns the same circumstance, written in another way.
func shuffleCirc(t *rapid.T, c Circ) Circ {
	c.Pseudo = permute(t, "order", c.Pseudo)
	c.Post = permute(t, "order", c.Post)
	if chance(t, "alwaysAt", 5) {
		i := between(t, "alwaysPos", 0, len(c.At))
		at := append([]At(nil), c.At[:i]...)
		at = append(at, At{Name: "@media"})
		c.At = append(at, c.At[i:]...)
	}
	return c
}

func plainIdentifier(s string) bool {
	return s != "" && strings.Trim(s, "abcdefghijklmnopqrstuvwxyz") == ""
}

func init() {
	for _, twins := range templateTwins {
		for _, tmpl := range twins {
			if !slices.Contains(templates, tmpl) {
				templates = append(templates, tmpl)
			}
		}
	}
}

func twinsOf(tmpl string) []string {
	for _, twins := range templateTwins {
		if slices.Contains(twins, tmpl) {
			return twins
		}
	}
	return nil
}

// mutateCirc returns a circumstance that is different, but only just.
func mutateCirc(t *rapid.T, c Circ) Circ {
	d := c
	d.At = append([]At(nil), c.At...)
	d.Pseudo = append([]string(nil), c.Pseudo...)
	if len(c.At) == 1 && strings.HasSuffix(c.Tmpl, " p") && plainIdentifier(c.At[0].Cond) && c.Elem == "" && chance(t, "glue", 60) {
		// the medium could be taken for a part of the selector
		d.At = nil
		d.Tmpl += pick(t, "glueWith", []string{"", " "}) + c.At[0].Cond
		return d
	}
	for try := 0; try < 8; try++ {
		switch between(t, "mutate", 0, 6) {
		case 0:
			if len(d.Pseudo) > 0 {
				d.Pseudo = d.Pseudo[1:]
			}
		case 1:
			d.Pseudo = sample2(t, "morePseudo", append(append([]string(nil), pseudoClasses[:8]...), d.Pseudo...), len(d.Pseudo)+1)
		case 2:
			if d.Tmpl == "&" && len(d.Post) == 0 {
				if d.Elem == "" {
					d.Elem = pick(t, "elem", pseudoElems)
				} else {
					d.Elem = pick(t, "elem2", append([]string{""}, pseudoElems...))
				}
			}
		case 3:
			if len(d.At) > 0 {
				d.At = d.At[1:]
			} else {
				d.At = []At{{"@media", pick(t, "cond", mediaConds)}}
			}
		case 4:
			if len(d.At) > 0 {
				if d.At[0].Name == "@media" {
					d.At[0] = At{"@media", pick(t, "cond", mediaConds)}
				} else {
					d.At[0] = At{"@supports", pick(t, "cond", supportsConds)}
				}
			} else {
				d.At = []At{{"@supports", pick(t, "cond", supportsConds)}}
			}
		case 5:
			if len(d.At) > 1 {
				d.At = d.At[:len(d.At)-1]
			} else {
				d.At = append(d.At, At{"@media", pick(t, "cond", mediaConds)})
			}
		case 6:
			if twins := twinsOf(d.Tmpl); twins != nil && chance(t, "twin", 60) {
				d.Tmpl = pick(t, "twinTmpl", twins)
				if !strings.HasSuffix(d.Tmpl, "&") {
					d.Elem, d.Post = "", nil
				}
			} else if d.Tmpl == "&" && d.Elem == "" {
				d.Tmpl = pick(t, "tmpl", templates)
			} else if d.Tmpl != "&" {
				d.Tmpl = pick(t, "tmpl", append([]string{"&"}, templates...))
				if !strings.HasSuffix(d.Tmpl, "&") {
					d.Elem, d.Post = "", nil
				}
			}
		}
		seen := map[At]bool{}
		dup := false
		for _, a := range d.At {
			dup = dup || a.Cond != "" && seen[a]
			seen[a] = true
		}
		if strings.HasPrefix(d.Tmpl, "p.zz") {
			d.Pseudo = nil
		}
		if !dup && d.key() != c.key() {
			break
		}
	}
	seen := map[At]bool{}
	for _, a := range d.At {
		if a.Cond != "" && seen[a] {
			d.At = d.At[:1]
			break
		}
		seen[a] = true
	}
	return d
}

var plainValues = []string{
	"0", "1px", "red", "auto", "inherit", "-1px", "1px 2px", "calc(100% - 1rem)", "rgb(1 2 3 / 0.5)", "#fff", "50%", "url(a.png)", "url(\"a;b}.png\")",
	"\"}\"", "\"a;b\"", "\"!important\"", "\"/* x */\"", "1px solid red", "a,b,c", "translate(1px,2px) rotate(3deg)", "12px/1.5 \"A B\",serif", "cubic-bezier(0.4,0,0.2,1)",
	"[full-start] 1fr [full-end]", "repeat(2,minmax(0,1fr))", "1E3px", "+.5em", "none", "initial", "var", "important", "varx(1px)",
	"url(data:image/png;base64,iVBOR/w==)", "url(\"data:image/svg+xml;utf8,<svg xmlns='http://x'/>\")", "url(a.png?x=1&y=2#z)", "alpha(opacity=50)",
	"1e-7", "-.5em", "1.0E+3", "#AbCdEf", "U+0025-00FF", "é", "«\u00a0» \u00a0", "A-B_c", "calc( 1px  +  2px )", "a  b\t c", "1px/* 2px */", "\"a  b\"", "\" \" \"\u00a0\"",
	"progid:DXImageTransform.Microsoft.gradient(startColorstr='#80000000',endColorstr='#80000000')",
}

var importantSpellings = []string{"!important", " !important", "! important", " !IMPORTANT", " ! Important ", "  !important "}

func genValue(t *rapid.T) string {
	if chance(t, "strings", 8) {
		out := genString(t)
		for n := pick(t, "moreParts", []int{0, 0, 1, 2}); n > 0; n-- {
			out += pick(t, "between", []string{" ", ",", " , ", " / ", "  ", " 1px ", " a  b "})
			if chance(t, "word", 30) {
				out += pick(t, "part", []string{"red", "1px", "url(a.png)", "f( 1 , 2 )", "[a  b]"})
			} else {
				out += genString(t)
			}
		}
		return out
	}
	if chance(t, "longValue", 1) {
		return strings.Repeat(pick(t, "longPart", []string{"1px  2px", "f( a ,\n b )", "\"a  b\"", "url(a.png)"})+pick(t, "longBetween", []string{"  ", " , ", " "}), between(t, "longTimes", 20, 150)) + "red"
	}
	return pick(t, "value", plainValues)
}

var stringParts = []string{
	"a", "B", "1", " ", "  ", "\t", "\u00a0", "é", "🙂", ";", ":", "{", "}", "(", ")", "( ", " )", " (", "[", "]", ",", ", ", " ,", "/", " / ", "/*", "*/", "//", "!", " !", "=", " = ",
	"<!--", "-->", "#", "@media", ".a", "\\\\", "\\31 ", "\\31  ", "\\0000e9", "\\1F600 ", "\\10FFFF", "\\31\r", "\\e9\f", "\\31\n", "\\d800 ", "\\\"", "\\'", "+", "> ", " >", "&", "%",
}

// genString draws a string as it is written in a stylesheet.
func genString(t *rapid.T) string {
	q := pick(t, "quote", []string{"\"", "'"})
	var b strings.Builder
	for n := between(t, "nParts", 0, 6); n > 0; n-- {
		b.WriteString(pick(t, "stringPart", stringParts))
		if chance(t, "otherQuote", 5) {
			b.WriteString(map[string]string{"\"": "'", "'": "\""}[q])
		}
	}
	return q + b.String() + q
}

func genDecl(t *rapid.T, props []string, importantPercent int) Decl {
	d := Decl{Prop: pick(t, "prop", props), Val: genValue(t)}
	if chance(t, "important", importantPercent) {
		d.Imp = pick(t, "imp", importantSpellings)
	}
	return d
}

// List is a class attribute: classes and what is between them.
type List struct {
	Tokens []string `json:"t"`
	Seps   []string `json:"s,omitempty"` // Seps[0] comes before the first class
}

func (l List) text() string {
	var b strings.Builder
	sep := func(i int, def string) string {
		if len(l.Seps) == 0 {
			return def
		}
		s := l.Seps[i%len(l.Seps)]
		if s == "" {
			return def
		}
		return s
	}
	b.WriteString(sep(0, ""))
	for i, tok := range l.Tokens {
		if i > 0 {
			b.WriteString(sep(i, " "))
		}
		b.WriteString(tok)
	}
	b.WriteString(sep(len(l.Tokens), ""))
	return b.String()
}

var unknownPool = []string{"zunknown", "zz-1", "z:hover", "zé", "z[1px]", "z/2", "js-hook", "Zunknown"}

var separators = []string{"", " ", "  ", "\t", "\n", "\r\n", "\f", " \n\t "}

// genList draws a class list; fancy allows any white space between the classes.
func genList(t *rapid.T, classes []string, maxLen int, unknown int, fancy bool) List {
	n := between(t, "len", 0, maxLen)
	if chance(t, "long", 2) {
		n = between(t, "longLen", 20, 80)
		if chance(t, "veryLong", 10) {
			n = pick(t, "veryLongLen", []int{130, 260, 520, 1030})
		}
	}
	l := List{}
	for i := 0; i < n; i++ {
		if chance(t, "unknown", unknown) {
			l.Tokens = append(l.Tokens, pick(t, "unknownClass", unknownPool))
		} else {
			l.Tokens = append(l.Tokens, pick(t, "class", classes))
		}
	}
	if fancy && chance(t, "fancy", 40) {
		for i := 0; i < 4; i++ {
			l.Seps = append(l.Seps, pick(t, "sep", separators))
		}
	}
	return l
}
