package zzverif

import (
	"fmt"
	"sort"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
	"pgregory.net/rapid"
)

func init() {
	register("C15",
		"the bytes have the makings of a stylesheet: they hold a brace, or they define a class",
		genBytes, checkBytes)
}

type bytesCase struct {
	Texts  [][]byte `json:"texts"`
	Inline []bool   `json:"inline"`
	Lists  [][]byte `json:"lists"`
	Cache  bool     `json:"cache"`
	Sort   bool     `json:"sort"`
}

var cssTokens = []string{
	"{", "}", "{}", ";", ":", ",", ".", "#", "(", ")", "[", "]", "\"", "'", "\\", "/*", "*/", "<!--", "-->", "@", "@media", "@media ", "@supports (a:b)", "@layer x", "@font-face",
	"@keyframes k", "@import", "@charset", "@x", " ", "\n", "\t", "\f", "\r", ".a", ".a{", ".b{color:red}", ".a:hover{", "a", "*", ">", "+", "~", "|", "&", "!", "!important",
	"color:red", "color", "--x", "--x:", "--x:{", "--x:1;", "var(--x)", "var(", "url(", "url(x", "url('", "U+26", "1e3", "-", "--", "_", "%", "=", "$", "^", "\x00", "\xff", "\xc3", "é", "🙂",
	"\\0 ", "\\110000 ", "\\d800", "\\\n", "margin:0", "padding:1px 2px;", ":not(", ":is(.a,.b)", ":where(", "::before", "::-webkit-x:y", ":nth-child(", "2n+1", "[a=b]", "[a='b']",
	".a{--x:", "@media{", "@supports{", "}}", "{{", ";;", "::", "..", "screen and (min-width:1px){", "\ufeff", "\u2028",
}

// longUnits are stylesheets in which something is repeated: what comes before it, the unit, what comes after it, and what is repeated then.
var longUnits = [][4]string{
	{"", ".a,", ".b{color:red}"}, {"", "!,", ".b{color:red}"}, {"", "x:y ,.b{z:w}", ".a{color:red}"}, {"", ".a{color:red}", ""}, {"", "@media print{.a{color:red}}", ""},
	{"", "@media print{", ".a{color:red}"}, {"", "@x{", ".a{color:red}"}, {"", "@import 'x';", ".a{color:red}"}, {"", "/*x*/", ".a{color:red}"}, {"", " ", ".a{color:red}"},
	{"@media ", "print,", "x{.a{color:red}}"}, {"@media (min-width:1px)", "/**/ and (a)", "{.a{color:red}}"}, {"@supports ", "(", "a:b){.a{color:red}}"},
	{".a{", "color:red;", "}"}, {".a{", "--x:red;", "}"}, {".a{", "--x:var(--y);margin:var(--x)!important;", "}"}, {".a{", ";", "}"}, {".a{grid-area:", "x ", "}"}, {".a{content:\"", "x ", "\"}"},
	{".a{content:\"", "\\41 ", "\"}"}, {".a{margin:", "var(--x) ", "}"}, {".a{margin:", "(", "}"}, {".a{--x:", "(", "}"}, {".a", "x", "{color:red}"}, {".a", ".x", "{color:red}"}, {".a", ":hover", "{color:red}"},
	{".a:is(", ".x,", ".y){color:red}"}, {".a[title=\"", "x ", "\"]{color:red}"}, {".a{color:red}", "{", ""}, {".a{color:red}", "\\", ""}, {".a{color:red}", "}", ""}, {".a{color:red}/*", "*", ""},
	{"", ".a ", ".b{color:red}"}, {".a", ">b", "{color:red}"}, {".b ~ ", "b+", ".a{color:red}"}, {".a", "\\:", "{color:red}"}, {".", "\\61 ", "{color:red}"}, {".a[b=\"", "\\:", "\"]{color:red}"}, {".a[b=\"", "\\61 ", "\"]{color:red}"},
	{".a", ":not(", "b", ")"}, {".a", ":is(b ", "c", ")"}, {".a", ":where(b>", "c", ")"}, {"", ":is(", ".a", ")"}, {".a", ":not(", "b"}, {".a", ":not(:is(", ".a", "))"}, {".a", ":has(", "b", ")"}, {".a:not(", "b ", ".c)"}, {"", ".b,", ".a{color:red}"},
	{".a:lang(", "en-", "x)"}, {".a:nth-child(", "1", ")"}, {".a:not(:contains(", "x,", "y))"}, {"#a", "#a", ".b{color:red}"}, {".a", "[b]", "{color:red}"}, {"*", "|*", ".a{color:red}"}, {".a", "::before", "{color:red}"},
}

func genBytes(t *rapid.T) bytesCase {
	var c bytesCase
	sheet := genSheet(t, sheetOpts{lo: 1, hi: 5, important: 20, custom: 30, circs: 60, clusters: 1})
	good := sheet.text()
	var classes []string
	for _, r := range sheet.Rules {
		classes = append(classes, r.Class)
	}
	for i := 0; i < 12; i++ {
		var b []byte
		switch uniform(t, "kind", 5) {
		case 0:
			b = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
		case 1:
			for n := between(t, "n", 0, 24); n > 0; n-- {
				b = append(b, pick(t, "token", cssTokens)...)
			}
		case 2:
			b = []byte(good[:uniform(t, "cut", len(good)+1)])
		default:
			b = mutateBytes(t, []byte(good), cssTokens)
		}
		c.Texts = append(c.Texts, b)
		c.Inline = append(c.Inline, chance(t, "inline", 20))
	}
	if chance(t, "deep", 4) {
		open := pick(t, "open", []string{"@media a{", "@supports (a:b){", "@x{", "{", "(", "[", ".a{", ".a{--x:{", ":not(", ".a{color:(", "/*", "\\", ".a,", ".a ", "@media "})
		c.Texts = append(c.Texts, []byte(strings.Repeat(open, between(t, "depth", 1, 1500))+".a{color:red}"))
		c.Inline = append(c.Inline, false)
	}
	if uniform(t, "long", 128) == 127 {
		// time must not grow much faster than the text
		l := pick(t, "unit", longUnits)
		n := pick(t, "bytes", []int{70_000, 1_000_000, 1_000_000}) / len(l[1])
		if l[3] != "" && chance(t, "longer", 40) {
			n *= 8
		}
		text := l[0] + strings.Repeat(l[1], n) + l[2] + strings.Repeat(l[3], n)
		if l[3] != "" {
			text += "{color:red}"
		}
		c.Texts = append(c.Texts, []byte(text))
		c.Inline = append(c.Inline, false)
	}
	for i := 0; i < 6; i++ {
		var b []byte
		switch uniform(t, "list", 3) {
		case 0:
			b = rapid.SliceOfN(rapid.Byte(), 0, 30).Draw(t, "listBytes")
		case 1:
			b = mutateBytes(t, []byte(strings.Join(append(classes, classes...), " ")), []string{" ", "\t", "\n", "\x00", "\xff", "\u00a0", "a", ".", "\v", "\u0085", "\u2028", "!", "é"})
		default:
			b = []byte(genList(t, append(classes, "a", "b"), 8, 20, true).text())
		}
		c.Lists = append(c.Lists, b)
	}
	c.Cache = chance(t, "cache", 30)
	c.Sort = chance(t, "sort", 70)
	return c
}

func rulesOf(m *merge.Merger) string {
	var b strings.Builder
	rules := m.Rules()
	for _, k := range sortedKeys(rules) {
		fmt.Fprintf(&b, "%q: %q %q %v\n", k, rules[k].GetSelector(), rules[k].GetCondition(), rules[k].Declarations)
	}
	return b.String()
}

func checkBytes(c bytesCase, rec *Rec) error {
	var cache merge.Cache
	if c.Cache {
		cache = otherCache{merge.NewCache()}
	}
	m := getMerger(cache, c.Sort)
	twin := getMerger(nil, c.Sort)
	for i, b := range c.Texts {
		before := rulesOf(m)
		err := m.AddRules(strings.NewReader(string(b)), c.Inline[i])
		err2 := twin.AddRules(&faultyReader{data: string(b), chunk: 5}, c.Inline[i])
		after := rulesOf(m)
		rec.Eval(strings.ContainsAny(string(b), "{}") || after != before, string(b), label(err != nil, "rejected"), label(after != before, "defines classes"), label(c.Inline[i], "inline"))
		if fmt.Sprint(err) != fmt.Sprint(err2) || after != rulesOf(twin) {
			return fmt.Errorf("the stylesheet %q is read in two ways: %v, %v\n%s\n%s", b, err, err2, after, rulesOf(twin))
		}
		if err != nil && before != after {
			return fmt.Errorf("the stylesheet %q is rejected (%v), but it changes the rules from\n%s\nto\n%s", b, err, before, after)
		}
		for k, r := range m.Rules() {
			// what there is to see of a rule
			if r.String() == "" || r.ToCssFormat() == "" || r.Selector == nil || k == "" {
				return fmt.Errorf("the stylesheet %q gives the class %q no rule", b, k)
			}
		}
		for _, l := range c.Lists {
			if err := checkAnyList(m, string(l), c.Sort, after); err != nil {
				return fmt.Errorf("%v\nafter the stylesheet %q, with rules\n%s", err, b, after)
			}
		}
	}
	// it is none the worse for it
	if err := m.AddRules(strings.NewReader(".znew1{zzcolor:red}.znew2{zzcolor:blue}"), false); err != nil {
		return fmt.Errorf("after %q, a good stylesheet is rejected: %v", c.Texts, err)
	}
	if out := m.Merge("znew1 znew2"); out != "znew2" {
		return fmt.Errorf("after %q, Merge(\"znew1 znew2\") = %q", c.Texts, out)
	}
	return nil
}

// checkAnyList checks what holds for any text that is given to Merge.
func checkAnyList(m *merge.Merger, in string, keepSort bool, rules string) error {
	out := m.Merge(in)
	given, got := tokens(in), tokens(out)
	have := setOf(got)
	if len(given) > 1 {
		if len(have) != len(got) {
			return fmt.Errorf("Merge(%q) = %q has a class twice", in, out)
		}
	}
	set := setOf(given)
	for _, tok := range got {
		if !set[tok] {
			return fmt.Errorf("Merge(%q) = %q has the class %q, which was not given", in, out, tok)
		}
	}
	for _, tok := range given {
		if _, ok := m.Rules()[tok]; !ok && !have[tok] {
			return fmt.Errorf("Merge(%q) = %q is without the class %q, which has no rule", in, out, tok)
		}
	}
	if again := m.Merge(in); !sameSet(tokens(again), got) || keepSort && again != out {
		return fmt.Errorf("Merge(%q) = %q and then %q", in, out, again)
	}
	if mm := tokens(m.Merge(out)); keepSort && !sameSet(mm, got) {
		return fmt.Errorf("Merge(%q) = %q, but merging that gives %q", in, out, mm)
	}
	if keepSort && len(given) > 1 {
		last := map[string]int{}
		for i, tok := range given {
			last[tok] = i
		}
		if !sort.SliceIsSorted(got, func(i, j int) bool { return last[got[i]] < last[got[j]] }) {
			return fmt.Errorf("Merge(%q) = %q changes the order", in, out)
		}
	}
	return nil
}
