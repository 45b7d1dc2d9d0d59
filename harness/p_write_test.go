package zzverif

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

func init() {
	register("C27",
		"the rule has several declarations, or a selector that is more than the class",
		genWritten, checkWritten)
}

// C27

type writtenCase struct {
	Sheet Sheet  `json:"sheet"`
	Lists []List `json:"lists"`
}

func genWritten(t *rapid.T) writtenCase {
	c := writtenCase{Sheet: genSheet(t, sheetOpts{lo: 2, hi: 10, important: 15, custom: 30, circs: 60, clusters: 1, noEmpty: true})}
	if len(c.Sheet.Rules) > 0 && chance(t, "noAts", 50) {
		for i := range c.Sheet.Rules {
			c.Sheet.Rules[i].Circ.At = nil
		}
	}
	var classes []string
	for i, r := range c.Sheet.Rules {
		classes = append(classes, r.Class)
		if chance(t, "complex", 25) {
			c.Sheet.Rules[i].Circ = Circ{At: r.Circ.At, Tmpl: pick(t, "tmpl", templates)}
		}
		ds := append([]Decl(nil), r.Decls...)
		for j := range ds {
			// a rule holds names and values without their escapes, so that they cannot be written again
			if strings.Contains(ds[j].Val, "\\") {
				ds[j].Val = "red"
			}
			if p := ds[j].Prop; strings.HasPrefix(p, "--") && cssVar(p, 0) != p {
				ds[j].Prop = "--plain"
			}
		}
		c.Sheet.Rules[i].Decls = ds
	}
	for i := 0; i < 8; i++ {
		c.Lists = append(c.Lists, genList(t, classes, 9, 5, false))
	}
	return c
}

// checkWritten reads what ToCssFormat writes of each rule.
func checkWritten(c writtenCase, rec *Rec) error {
	text := c.Sheet.text()
	m, err := newMerger(nil, true, text)
	if err != nil {
		return err
	}
	again := getMerger(nil, true)
	whole := ""
	ats := false
	for _, r := range c.Sheet.Rules {
		ats = ats || len(r.Circ.At) > 0
		rule, ok := m.Rules()[r.Class]
		if !ok {
			return fmt.Errorf("there is no rule for the class %q with\n%s", r.Class, text)
		}
		out := rule.ToCssFormat()
		whole += out + "\n"
		rec.Eval(len(r.Decls) > 1 || rule.GetSelector() != "."+r.Class, out, label(r.Circ.Tmpl != "&", "complex selector"), label(len(r.Decls) > 1, "several declarations"),
			label(strings.ContainsAny(out, "\"'"), "strings"))
		if err := again.AddRules(strings.NewReader(out), false); err != nil {
			return fmt.Errorf("the rule for the class %q is written as %q, which is rejected: %v", r.Class, out, err)
		}
		back, ok := again.Rules()[r.Class]
		if !ok {
			return fmt.Errorf("the rule for the class %q is written as %q, which has no rule for it", r.Class, out)
		}
		if s := back.ToCssFormat(); s != out {
			return fmt.Errorf("the rule for the class %q is written as %q, and that as %q", r.Class, out, s)
		}
		if back.GetSelector() != rule.GetSelector() {
			return fmt.Errorf("the rule for the class %q is written as %q, which has the selector %q, not %q", r.Class, out, back.GetSelector(), rule.GetSelector())
		}
		if len(back.Declarations) != len(r.Decls) {
			return fmt.Errorf("the rule for the class %q is written as %q, which has the declarations %q, want %q", r.Class, out, back.Declarations, rule.Declarations)
		}
		for i, d := range rule.Declarations {
			if back.Declarations[i] != d || !sameDecl(r.Decls[i], d.Property, d.Value) {
				return fmt.Errorf("the rule for the class %q is written as %q, which has the declarations %q, want %q", r.Class, out, back.Declarations, r.Decls)
			}
		}
	}
	if ats {
		return nil // the at-rules are not written
	}
	// all of them together are as good as the stylesheet
	other, err := newMerger(nil, true, whole)
	if err != nil {
		return err
	}
	for _, l := range c.Lists {
		in := l.text()
		rec.Eval(false, "", "merged with the written rules")
		if got, want := other.Merge(in), m.Merge(in); got != want {
			return fmt.Errorf("Merge(%q) = %q with\n%s\nbut %q with\n%s", in, want, text, got, whole)
		}
	}
	return nil
}
