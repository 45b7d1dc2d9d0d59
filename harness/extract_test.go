//go:build extract

package zzverif

import (
	"fmt"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
)

func init() {
	extractCheck = func(text string, all []Rule, fail func(string, ...any) error) error {
		rules, err := cascadia.ExtractRules(strings.NewReader(text), false)
		if err != nil {
			return fail("ExtractRules: %v", err)
		}
		if len(rules) != len(all) {
			return fail("ExtractRules finds %d rules, want %d", len(rules), len(all))
		}
		for i, r := range all {
			sel, err := cascadia.ParseWithPseudoElement(r.selectorText(0))
			if err != nil {
				return fail("the selector %q is rejected: %v", r.selectorText(0), err)
			}
			want := sel.String()
			got := rules[i].GetSelector()
			if r.Circ.Tmpl == "&" {
				// the order of pseudo-classes is the one in the stylesheet
				if !sameSet(strings.Split(got, ":"), strings.Split(want, ":")) {
					return fail("rule %d is for %q, want %q", i, got, want)
				}
			} else if got != want {
				return fail("rule %d is for %q, want %q", i, got, want)
			}
			var decls []string
			if len(rules[i].Declarations) != len(r.Decls) {
				return fail("rule %d has the declarations %q, want %v", i, rules[i].Declarations, r.Decls)
			}
			for k, d := range r.Decls {
				g := rules[i].Declarations[k]
				if !sameDecl(d, g.Property, g.Value) {
					return fail("rule %d has the declaration %q, want %v", i, g, d)
				}
				decls = append(decls, fmt.Sprintf("%s: %s;", g.Property, g.Value))
			}
			// white space and the last semicolon do not matter here; C27 reads what is written
			if want := got + " { " + strings.Join(decls, " ") + " }"; squeezed(rules[i].ToCssFormat()) != squeezed(want) {
				return fail("rule %d is written as %q, want %q", i, rules[i].ToCssFormat(), want)
			}
			for k := range all[:i] {
				q := all[k]
				if r.Circ.Tmpl != "&" || q.Circ.Tmpl != "&" {
					continue
				}
				same := r.Circ.key() == q.Circ.key()
				if (rules[i].GetCondition() == rules[k].GetCondition()) != same {
					return fail("the conditions of %q and %q are %q and %q", got, rules[k].GetSelector(), rules[i].GetCondition(), rules[k].GetCondition())
				}
			}
		}
		return nil
	}
}

// squeezed returns a rule without white space and without the semicolon after the last declaration.
func squeezed(s string) string {
	return strings.Replace(strings.Map(func(r rune) rune {
		if strings.ContainsRune(" \t\r\n\f", r) {
			return -1
		}
		return r
	}, s), ";}", "}", -1)
}
