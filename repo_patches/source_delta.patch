From 9775d171c23af542b706c049510b86d12f7e8749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 01/41] fix: a compound selector's condition includes its
 at-rule and pseudo-element

'.before\:p-1::before' was treated as applying under the same circumstances
as '.p-2', and a ':hover' rule inside @media as the same as one outside, so
Merge dropped classes that nothing in the list overrides.
---
 internal/cascadia/rules.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 09c55d2..7a2da6a 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -45,7 +45,11 @@ func (r CssRule) GetSelector() string {
 
 func (r CssRule) GetCondition() string {
 	if t, ok := r.Selector.(CompoundSelector); ok {
-		return t.PseudoElementsString()
+		condition := r.condition + t.PseudoElementsString()
+		if t.PseudoElement() != "" {
+			condition += "::" + t.PseudoElement()
+		}
+		return condition
 	}
 	return r.condition
 }
-- 
2.43.0


From 2e7246cccf09b67b5f7818fc84b5447cd6f70152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:51 +0000
Subject: [PATCH 02/41] fix: compare rules with complex selectors only within
 the same at-rule

The circumstance of a rule such as '.md\:space-x-2 > *' left out the at-rule
it is in, so '.space-x-4 > *' and its @media counterpart evicted each other.
---
 merge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 8cd99b9..072d23a 100644
--- a/merge.go
+++ b/merge.go
@@ -187,8 +187,9 @@ func propModifier(class string, rule cascadia.CssRule) string {
 		return rule.GetCondition()
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
+		// the condition keeps rules inside an at-rule apart from the ones outside of it
 		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return strings.Replace(s, class, "", 1)
+		return strings.Replace(s, class, "", 1) + rule.GetCondition()
 	}
 }
 
-- 
2.43.0


From 0589ef12ee7548e3e3cb39171fd57d99015cde4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:51 +0000
Subject: [PATCH 03/41] fix: remove the class itself, not its first look-alike,
 from a selector

With '.dark .a' and '.dark .b' the name was cut out of 'dark' for the first
one, so two rules that apply in the same circumstances were not compared.
---
 merge.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 072d23a..4cb7865 100644
--- a/merge.go
+++ b/merge.go
@@ -188,11 +188,40 @@ func propModifier(class string, rule cascadia.CssRule) string {
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
 		// the condition keeps rules inside an at-rule apart from the ones outside of it
-		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return strings.Replace(s, class, "", 1) + rule.GetCondition()
+		return removeClass(rule.Selector.String(), class) + rule.GetCondition()
 	}
 }
 
+// removeClass removes the name of a class from a serialized selector, leaving the dot in place.
+// Only whole class selectors are considered: other parts of the selector, which may
+// contain the same characters (e.g., "a" in ".dark .a"), are left alone.
+func removeClass(selector string, class string) string {
+	full := cascadia.ClassSelector{Class: class}.String()
+	out := strings.Builder{}
+	for {
+		i := strings.Index(selector, full)
+		if i == -1 {
+			break
+		}
+		end := i + len(full)
+		before := selector[:i]
+		escaped := (len(before)-len(strings.TrimRight(before, "\\")))%2 == 1
+		if escaped {
+			out.WriteString(selector[:i+1])
+			selector = selector[i+1:]
+			continue
+		}
+		if end == len(selector) || strings.IndexByte(" .#[:>+~,)", selector[end]) != -1 {
+			out.WriteString(selector[:i+1])
+		} else {
+			out.WriteString(selector[:end])
+		}
+		selector = selector[end:]
+	}
+	out.WriteString(selector)
+	return out.String()
+}
+
 // Merge resolves conflicting css class rules.
 // It takes a string of space-separated class names.
 // Returns a string of space-separated class names with the conflicting classes removed.
-- 
2.43.0


From 6b2be93b9fc0866691272fd4f2515c3e3671b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:19 +0000
Subject: [PATCH 04/41] fix: accept at-rules without a prelude

'@media {}' is valid CSS, and applies always. AddRules panicked on it.
---
 internal/cascadia/rules.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 7a2da6a..c6e259a 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -87,9 +87,6 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	if string(data) != "@media" && string(data) != "@supports" {
 		return "", ""
 	}
-	if len(values) == 0 {
-		panic("no values")
-	}
 	ruleBuilder := strings.Builder{}
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
-- 
2.43.0


From 3cb746852e11af10a8d5c4e604c72034ea74e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 05/41] fix: keep track of nested at-rules

The end of any nested at-rule, a @page inside @media for example, ended the
outer one too: the rest of its rules were taken as unconditional, and those
of an ignored at-rule leaked out. Only the innermost condition was kept, and
@supports was taken for a @media with the same condition.
---
 internal/cascadia/rules.go | 45 +++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index c6e259a..15589a2 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -91,7 +91,26 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
 	}
-	return string(data), ruleBuilder.String()
+	return string(data), strings.TrimSpace(ruleBuilder.String())
+}
+
+// atRule is a conditional group rule (e.g., @media) that a rule is nested in.
+type atRule struct {
+	name      string
+	condition string
+}
+
+// joinConditions combines the at-rules that a rule is nested in, outermost first, into one condition.
+// The name of the outermost one is left out if it is @media.
+func joinConditions(atRules []atRule) string {
+	conditions := make([]string, 0, len(atRules))
+	for _, r := range atRules {
+		if r.condition == "" { // it always applies
+			continue
+		}
+		conditions = append(conditions, r.name+" "+r.condition)
+	}
+	return strings.TrimPrefix(strings.Join(conditions, " "), "@media ")
 }
 
 func CssUnescape(b []byte) string {
@@ -133,12 +152,18 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
-	var atRuleCondition string
-	ignore := false
+	var atRules []atRule // the at-rules we are in, outermost first
+	ignoreDepth := 0     // number of open at-rules, counting from the outermost ignored one
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
-		if ignore && gt != css.EndAtRuleGrammar {
+		if ignoreDepth > 0 {
+			switch gt {
+			case css.BeginAtRuleGrammar:
+				ignoreDepth++
+			case css.EndAtRuleGrammar:
+				ignoreDepth--
+			}
 			continue
 		}
 
@@ -161,17 +186,17 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 		case css.BeginAtRuleGrammar:
 			name, condition := parseAtRuleName(data, p.Values())
 			if name == "" {
-				atRuleCondition = ""
-				ignore = true
+				ignoreDepth = 1
 				continue
 			}
-			atRuleCondition = condition
+			atRules = append(atRules, atRule{name: name, condition: condition})
 		case css.EndAtRuleGrammar:
-			atRuleCondition = ""
-			ignore = false
+			if len(atRules) > 0 {
+				atRules = atRules[:len(atRules)-1]
+			}
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
-			currentRule.condition = atRuleCondition
+			currentRule.condition = joinConditions(atRules)
 			sel, err := getSelector(data, p.Values())
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
-- 
2.43.0


From 38d1bd9852acf4e4ea09af8a4aa1379cb6e3973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 06/41] fix: do not loop forever on a parse error in an ignored
 part

---
 internal/cascadia/rules.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 15589a2..908788c 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -150,11 +150,11 @@ func normalizeWhitespace(s string) string {
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	p := css.NewParser(parse.NewInput(r), inline)
 	rules := make([]CssRule, 0)
-	var err error
 	var currentRule CssRule
 	var atRules []atRule // the at-rules we are in, outermost first
 	ignoreDepth := 0     // number of open at-rules, counting from the outermost ignored one
 	ruleSetErr := false
+	var skippedErr error // the last parse error in a part that is ignored
 	for {
 		gt, _, data := p.Next()
 		if ignoreDepth > 0 {
@@ -163,11 +163,22 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 				ignoreDepth++
 			case css.EndAtRuleGrammar:
 				ignoreDepth--
+			case css.ErrorGrammar:
+				if !p.HasParseError() { // the end of the input
+					return endOfInput(rules, p.Err(), skippedErr)
+				}
+				skippedErr = p.Err()
 			}
 			continue
 		}
 
-		if ruleSetErr && gt != css.EndRulesetGrammar {
+		if ruleSetErr && gt == css.ErrorGrammar {
+			if !p.HasParseError() { // the end of the input
+				return endOfInput(rules, p.Err(), skippedErr)
+			}
+			skippedErr = p.Err()
+			continue
+		} else if ruleSetErr && gt != css.EndRulesetGrammar {
 			continue
 		} else if ruleSetErr && gt == css.EndRulesetGrammar {
 			ruleSetErr = false
@@ -175,14 +186,7 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 
 		switch gt {
 		case css.ErrorGrammar:
-			err = p.Err()
-			if err == io.EOF {
-				err = nil
-			}
-			if err != nil {
-				err = fmt.Errorf("encountered error parsing CSS: %v", err)
-			}
-			return rules, err
+			return endOfInput(rules, p.Err(), nil)
 		case css.BeginAtRuleGrammar:
 			name, condition := parseAtRuleName(data, p.Values())
 			if name == "" {
@@ -217,6 +221,18 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	}
 }
 
+// endOfInput returns the result of ExtractRules when it cannot read any further because of err.
+// skippedErr is a parse error because of which the end of an ignored part was not found, if any.
+func endOfInput(rules []CssRule, err error, skippedErr error) ([]CssRule, error) {
+	if err == io.EOF {
+		err = skippedErr
+	}
+	if err != nil {
+		err = fmt.Errorf("encountered error parsing CSS: %v", err)
+	}
+	return rules, err
+}
+
 func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 	vals := strings.Builder{}
 	for _, val := range p.Values() {
-- 
2.43.0


From edf55aa60615c5c6a25a202e2afd963c78c89590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 07/41] fix: read every selector of a selector list

---
 internal/cascadia/rules.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 908788c..7bcce23 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -71,14 +71,19 @@ type CssDeclaration struct {
 	Value    string // Value is the value for the declaration (e.g., "red")
 }
 
-// getSelector parses the selector from the tokens
-func getSelector(data []byte, tokens []css.Token) (Sel, error) {
-	fullSelector := strings.Builder{}
+// getSelectors parses the selectors from the tokens.
+// preceding holds the part of the selector list that comes before the tokens.
+func getSelectors(preceding string, tokens []css.Token) (SelectorGroup, error) {
+	return ParseGroupWithPseudoElements(preceding + joinTokens(tokens))
+}
+
+// joinTokens returns the source text of the tokens.
+func joinTokens(tokens []css.Token) string {
+	text := strings.Builder{}
 	for _, val := range tokens {
-		fullSelector.Write(val.Data)
+		text.Write(val.Data)
 	}
-	casc, err := ParseWithPseudoElement(fullSelector.String())
-	return casc, err
+	return text.String()
 }
 
 // parses the name of an at-rule and its values if it's a media query
@@ -151,8 +156,10 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	p := css.NewParser(parse.NewInput(r), inline)
 	rules := make([]CssRule, 0)
 	var currentRule CssRule
-	var atRules []atRule // the at-rules we are in, outermost first
-	ignoreDepth := 0     // number of open at-rules, counting from the outermost ignored one
+	var selectors SelectorGroup // the selectors of the current rule
+	precedingSelectors := ""    // the selectors read so far that are followed by a comma
+	var atRules []atRule        // the at-rules we are in, outermost first
+	ignoreDepth := 0            // number of open at-rules, counting from the outermost ignored one
 	ruleSetErr := false
 	var skippedErr error // the last parse error in a part that is ignored
 	for {
@@ -198,22 +205,29 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			if len(atRules) > 0 {
 				atRules = atRules[:len(atRules)-1]
 			}
+		case css.QualifiedRuleGrammar: // more of the selector list follows
+			precedingSelectors += joinTokens(p.Values()) + ","
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
 			currentRule.condition = joinConditions(atRules)
-			sel, err := getSelector(data, p.Values())
+			sels, err := getSelectors(precedingSelectors, p.Values())
+			precedingSelectors = ""
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
 				ruleSetErr = true
-				currentRule = CssRule{}
+				selectors = nil
 				continue
 			}
-			currentRule.Selector = sel
+			selectors = sels
 		case css.DeclarationGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
 		case css.EndRulesetGrammar:
-			rules = append(rules, currentRule)
+			for _, sel := range selectors {
+				currentRule.Selector = sel
+				rules = append(rules, currentRule)
+			}
+			selectors = nil
 		case css.CustomPropertyGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
-- 
2.43.0


From 89bfcdd53a3253100f60f90ed02ba6544e22566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:13 +0000
Subject: [PATCH 08/41] fix: decide for each declaration which class wins, and
 keep the custom properties it uses

- classes of the same rule do not stand in for each other
- !important applies to its own declaration only
- custom properties are kept if any declaration that wins uses them, under
  whichever condition they are set, or if another one in use is built on them
---
 merge.go | 118 ++++++++++++++++++++++++++++++-------------------------
 1 file changed, 64 insertions(+), 54 deletions(-)

diff --git a/merge.go b/merge.go
index 4cb7865..5430572 100644
--- a/merge.go
+++ b/merge.go
@@ -112,20 +112,33 @@ func (r *Merger) AddRules(reader io.Reader, inline bool) error {
 	return nil
 }
 
-func (r *Merger) getAffectedProps(rule cascadia.CssRule) []string {
-	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations
-	for _, dec := range rule.Declarations {
-		prop, ok := r.properties[dec.Property]
-		if !ok {
-			// Allowing these through, maybe they shouldn't be but
-			// this allows properties like stroke, fill, etc. to be used
-			// which are not in the mdn official list of props
-			// IMPORTANT: we are relying on this to let custom properties through
-			affectedProps = append(affectedProps, dec.Property)
-		}
-		affectedProps = append(affectedProps, prop.ComputedProps()...)
+func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
+	prop, ok := r.properties[dec.Property]
+	if !ok {
+		// Allowing these through, maybe they shouldn't be but
+		// this allows properties like stroke, fill, etc. to be used
+		// which are not in the mdn official list of props
+		// IMPORTANT: we are relying on this to let custom properties through
+		return []string{dec.Property}
+	}
+	return prop.ComputedProps()
+}
+
+// winner is the last class that sets a property.
+type winner struct {
+	class      string
+	customVars []string // the custom vars that it sets the property with
+}
+
+// setWinner makes class the winner for key.
+// The customVars add up if the class declares the property more than once.
+func setWinner(winners map[string]winner, key string, class string, customVars []string) {
+	w := winners[key]
+	if w.class != class {
+		w = winner{class: class}
 	}
-	return unique(affectedProps)
+	w.customVars = append(w.customVars, customVars...)
+	winners[key] = w
 }
 
 var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
@@ -242,14 +255,12 @@ func (r *Merger) Merge(inClass string) string {
 	}
 
 	keepClasses := make([]string, 0, len(split))
-	selectorToClass := make(map[string]string, len(split))
 
 	// propsToClasses is a map of properties that are shared between classes
-	// The property name may have a condition (pseudo or media) appended to it (e.g., "height:hover": ["h-10", "h-20"])
-	propsToSelectors := make(map[string]string, len(split))
-	importantPropsToSelectors := make(map[string]string, len(split))
-	customVarsToSelectors := make(map[string]string, len(split)) // map of custom vars to the class that set them
-	propsToCustomVars := make(map[string][]string, len(split))   // map of props to the custom vars that it uses
+	// The property name has the condition (pseudo or media) appended to it (e.g., "height :hover": ["h-10", "h-20"])
+	propsToClasses := make(map[string]winner, len(split))
+	importantPropsToClasses := make(map[string]winner, len(split))
+	customVarsToClasses := make(map[string]map[string]winner, len(split)) // map of custom vars to the class that set them under each condition
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
@@ -258,66 +269,65 @@ func (r *Merger) Merge(inClass string) string {
 			continue
 		}
 
-		selectorToClass[rule.Selector.String()] = class
 		propMod := propModifier(class, rule)
 
-		for _, prop := range r.getAffectedProps(rule) {
+		for _, dec := range rule.Declarations {
+			customVars := getCustomVarsInDec(dec)
+			important := importantRegex.MatchString(dec.Value)
 
-			prop = prop + propMod
+			for _, prop := range r.getAffectedProps(dec) {
 
-			for _, dec := range rule.Declarations {
+				// a space cannot be part of the name of a property
+				propWithMod := prop + " " + propMod
 
-				if !strings.HasPrefix(prop, "--") {
-					// if the property has a custom var, add it to the propsToCustomVars map
-					customVars := getCustomVarsInDec(dec)
-					// overwrite the customVars so we prioritize the last class that sets the property
-					propsToCustomVars[prop] = customVars
+				// if the property is marked !important, add the class to the importantProps map
+				if important {
+					setWinner(importantPropsToClasses, propWithMod, class, customVars)
 				}
 
-				// if the property is marked !important, add the class to the importantProps map
-				if importantRegex.MatchString(dec.Value) {
-					importantPropsToSelectors[prop] = rule.Selector.String()
+				// if it has a custom prop, add it to the customVars map
+				if strings.HasPrefix(prop, "--") {
+					if customVarsToClasses[prop] == nil {
+						customVarsToClasses[prop] = make(map[string]winner)
+					}
+					setWinner(customVarsToClasses[prop], propMod, class, customVars)
+					continue
 				}
-			}
 
-			// if it has a custom prop, add it to the customVars map
-			if strings.HasPrefix(prop, "--") {
-				customVarsToSelectors[prop] = rule.Selector.String()
-				continue
+				// add all classes to the propsToClasses map
+				setWinner(propsToClasses, propWithMod, class, customVars)
 			}
-
-			// add all classes to the propsToClasses map
-			propsToSelectors[prop] = rule.Selector.String()
 		}
 	}
 
+	usedVars := make([]string, 0, len(split)) // the custom vars that the classes we keep use
+
 	// keep the last class in the list for each property
 	// importantly, this keeps classes that uniquely define a property, even if it has properties that conflict with other classes
-	for _, sel := range propsToSelectors {
-		class := selectorToClass[sel]
-		keepClasses = append(keepClasses, class)
+	for _, w := range propsToClasses {
+		keepClasses = append(keepClasses, w.class)
+		usedVars = append(usedVars, w.customVars...)
 	}
 
 	// If a class has an !important property, it is kept unless another class comes later in the class string and it is marked !important on the same property.
-	for _, sel := range importantPropsToSelectors {
+	for _, w := range importantPropsToClasses {
 		// This does not remove the class that the the important class is overriding,
 		// but it shouldn't matter because the important class will override the other,
 		// and the other class may have other properties that are not being overridden
-		class := selectorToClass[sel]
-		keepClasses = append(keepClasses, class)
+		keepClasses = append(keepClasses, w.class)
+		usedVars = append(usedVars, w.customVars...)
 	}
 
 	// keep the class that sets the last definition of each custom property if that custom property is actually used
-	for custVar, sel := range customVarsToSelectors {
-		for _, vars := range propsToCustomVars {
-			// if the custom property is actually used, keep the class that sets it
-			if !slices.Contains(vars, custVar) {
-				continue
-			}
-			class := selectorToClass[sel]
-			keepClasses = append(keepClasses, class)
-			break
+	// the definition may use other custom properties in turn
+	for len(usedVars) > 0 {
+		custVar := usedVars[len(usedVars)-1]
+		usedVars = usedVars[:len(usedVars)-1]
+		for _, w := range customVarsToClasses[custVar] {
+			keepClasses = append(keepClasses, w.class)
+			usedVars = append(usedVars, w.customVars...)
 		}
+		delete(customVarsToClasses, custVar)
 	}
 
 	keepClasses = unique(keepClasses)
-- 
2.43.0


From 43f1ee35f669431ecc2391c89385d79a8fc29a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 09/41] fix: recognise every spelling of !important and var()

- white space and upper case are allowed in both
- the name of a custom property may have any character, escaped if need be
---
 internal/cascadia/rules.go | 2 +-
 merge.go                   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 7bcce23..d3ef265 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -253,6 +253,6 @@ func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 		vals.Write(val.Data)
 	}
 	s := normalizeWhitespace(vals.String())
-	declaration := CssDeclaration{Property: string(data), Value: CssUnescape([]byte(s))}
+	declaration := CssDeclaration{Property: CssUnescape(data), Value: CssUnescape([]byte(s))}
 	return declaration
 }
diff --git a/merge.go b/merge.go
index 5430572..3f9e5d8 100644
--- a/merge.go
+++ b/merge.go
@@ -141,8 +141,8 @@ func setWinner(winners map[string]winner, key string, class string, customVars [
 	winners[key] = w
 }
 
-var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`) // matches custom variables in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)!\s*important\s*$`)     // matches !important in a css declaration value
+var customVarRegex = regexp.MustCompile(`(?i)var\(\s*(--[^\s,()]+)`) // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-- 
2.43.0


From bf7d328b716061464e575a7bdfad5cb145b25f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 10/41] fix: accept any white space between classes

---
 merge.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 3f9e5d8..d0a6c0b 100644
--- a/merge.go
+++ b/merge.go
@@ -235,6 +235,11 @@ func removeClass(selector string, class string) string {
 	return out.String()
 }
 
+// isSpace reports whether c separates the classes of a class attribute.
+func isSpace(c rune) bool {
+	return strings.ContainsRune(" \t\n\f\r", c)
+}
+
 // Merge resolves conflicting css class rules.
 // It takes a string of space-separated class names.
 // Returns a string of space-separated class names with the conflicting classes removed.
@@ -249,7 +254,7 @@ func (r *Merger) Merge(inClass string) string {
 			return val
 		}
 	}
-	split := strings.Split(strings.TrimSpace(inClass), " ")
+	split := strings.FieldsFunc(inClass, isSpace)
 	if len(split) < 2 {
 		return inClass
 	}
-- 
2.43.0


From 38fceaf46d62505c7f86807f76ba855947628db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 11/41] fix: clear the cache without racing with its other
 operations

---
 cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 5c9f60c..cbd1df7 100644
--- a/cache.go
+++ b/cache.go
@@ -7,7 +7,7 @@ import (
 // SimpleCache is a simple in-memory cache that uses a sync.Map to store key-value pairs.
 // It is safe for concurrent use, but it is grow-only.
 type SimpleCache struct {
-	mu    sync.Mutex
+	mu    sync.RWMutex // it is only locked for writing when all the items are replaced
 	items sync.Map
 }
 
@@ -18,6 +18,8 @@ func NewCache() *SimpleCache {
 
 // Get returns the value for the given key, and a boolean indicating whether the key was found.
 func (c *SimpleCache) Get(key string) (string, bool) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	if value, ok := c.items.Load(key); ok {
 		return value.(string), true
 	}
@@ -26,6 +28,8 @@ func (c *SimpleCache) Get(key string) (string, bool) {
 
 // Set sets the value for the given key.
 func (c *SimpleCache) Set(key string, data string) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	c.items.Store(key, data)
 }
 
-- 
2.43.0


From 290010436e594bd56ef67fb08a4dd0eea93054ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:42 +0000
Subject: [PATCH 12/41] fix: let Merge run while rules are being added

---
 merge.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index d0a6c0b..210b5e6 100644
--- a/merge.go
+++ b/merge.go
@@ -23,7 +23,7 @@ type Cache interface {
 
 // Merger is a struct that resolves conflicting css rules.
 type Merger struct {
-	mu         sync.Mutex // mutex is only used when adding rules
+	mu         sync.RWMutex // mutex is only locked for writing when adding rules
 	rules      map[string]cascadia.CssRule
 	cache      Cache
 	properties map[string]props.Property
@@ -248,6 +248,8 @@ func isSpace(c rune) bool {
 // Important properties are prioritised over non-important properties.
 // If the cache is not nil, it will store the result of the merge to skip re-calculating the merge later.
 func (r *Merger) Merge(inClass string) string {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
 	if r.cache != nil {
 		val, ok := r.cache.Get(inClass)
 		if ok {
-- 
2.43.0


From 042aeda3db644b8784fc888e64fead2d473000b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 13/41] fix: look through shorthands of shorthands

border-top-width did not conflict with border, nor background-position-x with background
---
 merge.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/merge.go b/merge.go
index 210b5e6..825518c 100644
--- a/merge.go
+++ b/merge.go
@@ -112,16 +112,26 @@ func (r *Merger) AddRules(reader io.Reader, inline bool) error {
 	return nil
 }
 
-func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
-	prop, ok := r.properties[dec.Property]
+// getAffectedProps returns the properties that are set by setting the property called name.
+// The properties that a shorthand stands for may be shorthands, too.
+func (r *Merger) getAffectedProps(name string) []string {
+	prop, ok := r.properties[name]
 	if !ok {
 		// Allowing these through, maybe they shouldn't be but
 		// this allows properties like stroke, fill, etc. to be used
 		// which are not in the mdn official list of props
 		// IMPORTANT: we are relying on this to let custom properties through
-		return []string{dec.Property}
+		return []string{name}
 	}
-	return prop.ComputedProps()
+	affectedProps := make([]string, 0, len(prop.ComputedProps()))
+	for _, computed := range prop.ComputedProps() {
+		if computed == name {
+			affectedProps = append(affectedProps, name)
+			continue
+		}
+		affectedProps = append(affectedProps, r.getAffectedProps(computed)...)
+	}
+	return affectedProps
 }
 
 // winner is the last class that sets a property.
@@ -282,7 +292,7 @@ func (r *Merger) Merge(inClass string) string {
 			customVars := getCustomVarsInDec(dec)
 			important := importantRegex.MatchString(dec.Value)
 
-			for _, prop := range r.getAffectedProps(dec) {
+			for _, prop := range r.getAffectedProps(dec.Property) {
 
 				// a space cannot be part of the name of a property
 				propWithMod := prop + " " + propMod
-- 
2.43.0


From 05b3d07efa17a1868aae1311548df2eb9deba940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:23 +0000
Subject: [PATCH 14/41] fix: list the properties that some shorthands stand for

- border-block-*, border-inline-*, -webkit-border-before: their own sides, not all of them
- font-variant, font-synthesis and the two-sided logical border properties are shorthands
- grid leaves the gaps alone
---
 internal/props/gen/properties.json | 77 ++++++++++++++++++++----------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/internal/props/gen/properties.json b/internal/props/gen/properties.json
index 3308c26..d28eef9 100644
--- a/internal/props/gen/properties.json
+++ b/internal/props/gen/properties.json
@@ -1243,9 +1243,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
-        "color"
+        "-webkit-border-before-width",
+        "-webkit-border-before-style",
+        "-webkit-border-before-color"
       ],
       "order": "uniqueOrder",
       "status": "nonstandard",
@@ -2486,7 +2486,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-block-start-color",
+        "border-block-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-color"
@@ -2502,7 +2505,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-block-start-style",
+        "border-block-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-style"
@@ -2518,7 +2524,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-block-start-width",
+        "border-block-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-width"
@@ -2543,9 +2552,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-top-width",
-        "border-top-style",
-        "border-top-color"
+        "border-block-end-width",
+        "border-block-end-style",
+        "border-block-end-color"
       ],
       "order": "uniqueOrder",
       "status": "standard",
@@ -2619,8 +2628,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-block-start-width",
+        "border-block-start-style",
         "border-block-start-color"
       ],
       "order": "uniqueOrder",
@@ -3072,8 +3081,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-end-width",
+        "border-inline-end-style",
         "border-inline-end-color"
       ],
       "order": "uniqueOrder",
@@ -3091,7 +3100,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-inline-start-color",
+        "border-inline-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-color"
@@ -3107,7 +3119,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-inline-start-style",
+        "border-inline-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-style"
@@ -3123,7 +3138,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-inline-start-width",
+        "border-inline-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-width"
@@ -3196,8 +3214,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-start-width",
+        "border-inline-start-style",
         "border-inline-start-color"
       ],
       "order": "uniqueOrder",
@@ -5075,7 +5093,12 @@
       ],
       "initial": "weight style small-caps position ",
       "appliesto": "allElementsAndText",
-      "computed": "asSpecified",
+      "computed": [
+        "font-synthesis-position",
+        "font-synthesis-small-caps",
+        "font-synthesis-style",
+        "font-synthesis-weight"
+      ],
       "order": "orderOfAppearance",
       "alsoAppliesTo": [
         "::first-letter",
@@ -5180,7 +5203,15 @@
       ],
       "initial": "normal",
       "appliesto": "allElementsAndText",
-      "computed": "asSpecified",
+      "computed": [
+        "font-variant-alternates",
+        "font-variant-caps",
+        "font-variant-east-asian",
+        "font-variant-emoji",
+        "font-variant-ligatures",
+        "font-variant-numeric",
+        "font-variant-position"
+      ],
       "order": "uniqueOrder",
       "alsoAppliesTo": [
         "::first-letter",
@@ -5442,11 +5473,7 @@
         "grid-template-areas",
         "grid-auto-rows",
         "grid-auto-columns",
-        "grid-auto-flow",
-        "grid-column-gap",
-        "grid-row-gap",
-        "column-gap",
-        "row-gap"
+        "grid-auto-flow"
       ],
       "order": "uniqueOrder",
       "status": "standard",
-- 
2.43.0


From 720d8a22d88d86cd33d55f2d94e55b1e2fa37679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 15/41] fix: write selectors that can be read back

escape digits at the start, control characters, names of elements and
attributes, and the contents of strings; spell :popover-open in full
---
 internal/cascadia/serialize.go | 40 ++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 45186fe..3c7c50e 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -48,10 +48,36 @@ func init() {
 }
 
 // espace special CSS char
-func escape(s string) string { return specialCharReplacer.Replace(s) }
+func escape(s string) string {
+	s = specialCharReplacer.Replace(s)
+	if s != "" && '0' <= s[0] && s[0] <= '9' { // an identifier cannot start with a digit
+		s = hexEscape(s[0]) + s[1:]
+	}
+	return escapeControl(s)
+}
+
+// escapeControl escapes control characters, which include line endings
+func escapeControl(s string) string {
+	out := strings.Builder{}
+	for i := 0; i < len(s); i++ {
+		if s[i] < ' ' || s[i] == 0x7f {
+			out.WriteString(hexEscape(s[i]))
+		} else {
+			out.WriteByte(s[i])
+		}
+	}
+	return out.String()
+}
+
+func hexEscape(c byte) string { return fmt.Sprintf("\\%x ", c) }
+
+var stringReplacer = strings.NewReplacer(`"`, `\"`, `\`, `\\`)
+
+// quote returns s as a CSS string
+func quote(s string) string { return `"` + escapeControl(stringReplacer.Replace(s)) + `"` }
 
 func (c TagSelector) String() string {
-	return c.tag
+	return escape(c.tag)
 }
 
 func (c IdSelector) String() string {
@@ -67,7 +93,7 @@ func (c AttrSelector) String() string {
 	if c.operation == "#=" {
 		val = c.regexp.String()
 	} else if c.operation != "" {
-		val = fmt.Sprintf(`"%s"`, val)
+		val = quote(val)
 	}
 
 	ignoreCase := ""
@@ -76,7 +102,7 @@ func (c AttrSelector) String() string {
 		ignoreCase = " i"
 	}
 
-	return fmt.Sprintf(`[%s%s%s%s]`, c.key, c.operation, val, ignoreCase)
+	return fmt.Sprintf(`[%s%s%s%s]`, escape(c.key), c.operation, val, ignoreCase)
 }
 
 func (c IsPseudoClassSelector) String() string {
@@ -96,7 +122,7 @@ func (c ContainsPseudoClassSelector) String() string {
 	if c.own {
 		s += "Own"
 	}
-	return fmt.Sprintf(`:%s("%s")`, s, c.value)
+	return fmt.Sprintf(`:%s(%s)`, s, quote(c.value))
 }
 
 func (c RegexpPseudoClassSelector) String() string {
@@ -162,7 +188,7 @@ func (c LinkPseudoClassSelector) String() string {
 }
 
 func (c LangPseudoClassSelector) String() string {
-	return fmt.Sprintf(":lang(%s)", c.lang)
+	return fmt.Sprintf(":lang(%s)", escape(c.lang))
 }
 
 func (c EnabledPseudoClassSelector) String() string {
@@ -202,7 +228,7 @@ func (c ReadOnlyPseudoClassSelector) String() string {
 }
 
 func (c PopoverPseudoClassSelector) String() string {
-	return ":popover"
+	return ":popover-open"
 }
 
 func (c abstractPseudoClass) String() string {
-- 
2.43.0


From 8fcf7f9933dffc9264c04eb9a0eb937dfd83592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 16/41] fix: accept *|* at the end of a selector

---
 internal/cascadia/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 4591ef9..edf0443 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -820,7 +820,7 @@ func (p *parser) parseSimpleSelectorSequence() (Sel, error) {
 	case '*':
 		// It's the universal selector. Just skip over it, since it doesn't affect the meaning.
 		p.i++
-		if p.i+2 < len(p.s) && p.s[p.i:p.i+2] == "|*" { // other version of universal selector
+		if strings.HasPrefix(p.s[p.i:], "|*") { // other version of universal selector
 			p.i += 2
 		}
 	case '#', '.', '[', ':':
-- 
2.43.0


From dced225f6f4cff6f949e78b49b837eeaaf4e7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 17/41] fix: an empty string is not part of any attribute value

---
 internal/cascadia/selector.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 8981252..6b1e6ed 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -291,6 +291,9 @@ func attributeNotEqualMatch(key, val string, n *html.Node, ignoreCase bool) bool
 
 // returns true if s is a whitespace-separated list that includes val.
 func matchInclude(val string, s string, ignoreCase bool) bool {
+	if val == "" {
+		return false
+	}
 	for s != "" {
 		i := strings.IndexAny(s, " \t\r\n\f")
 		if i == -1 {
@@ -326,7 +329,7 @@ func attributeDashMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
@@ -341,7 +344,7 @@ func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
@@ -356,7 +359,7 @@ func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSubstringMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
-- 
2.43.0


From de4c7b6f99e02aa0c383aeb0dd16bf02cc820051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 18/41] fix: only elements match :contains() and :matches()

---
 internal/cascadia/pseudo_classes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 78b9427..42f207e 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -192,6 +192,9 @@ type ContainsPseudoClassSelector struct {
 }
 
 func (s ContainsPseudoClassSelector) Match(n *html.Node) bool {
+	if n.Type != html.ElementNode {
+		return false
+	}
 	var text string
 	if s.own {
 		// matches nodes that directly contain the given text
@@ -210,6 +213,9 @@ type RegexpPseudoClassSelector struct {
 }
 
 func (s RegexpPseudoClassSelector) Match(n *html.Node) bool {
+	if n.Type != html.ElementNode {
+		return false
+	}
 	var text string
 	if s.own {
 		// matches nodes whose text directly matches the specified regular expression
-- 
2.43.0


From e10e686ab48660df7030dd21b457d8bf090a4697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 19/41] fix: :lang() goes by the nearest lang attribute, in any
 case

---
 internal/cascadia/pseudo_classes.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 42f207e..d141620 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -476,13 +476,16 @@ type LangPseudoClassSelector struct {
 }
 
 func (s LangPseudoClassSelector) Match(n *html.Node) bool {
-	own := matchAttribute(n, "lang", func(val string) bool {
-		return val == s.lang || strings.HasPrefix(val, s.lang+"-")
-	})
-	if n.Parent == nil {
-		return own
+	if n.Type != html.ElementNode {
+		return false
 	}
-	return own || s.Match(n.Parent)
+	// the language of an element is set by the nearest element that has the attribute
+	for ; n != nil; n = n.Parent {
+		if hasAttr(n, "lang") {
+			return attributeDashMatch("lang", s.lang, n, true)
+		}
+	}
+	return false
 }
 
 type EnabledPseudoClassSelector struct {
-- 
2.43.0


From c12b1656f60a23d28c7fc6851a3d43367bafd1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 20/41] fix: the contents of :is() and :where() are part of the
 condition

---
 merge.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/merge.go b/merge.go
index 825518c..4547aa5 100644
--- a/merge.go
+++ b/merge.go
@@ -173,15 +173,14 @@ func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 // with a class and one or more pseudo element or class.
 // It returns true if the selector is a class with pseudo elements or classes.
 func classWithPseudo(sel cascadia.Sel) bool {
-	_, ok := sel.(cascadia.CompoundSelector)
+	compound, ok := sel.(cascadia.CompoundSelector)
 	if !ok {
 		return false
 	}
-	selectors := walk(sel)
-	for i, s := range selectors {
+	for i, s := range compound.Selectors() {
 		if i == 0 {
-			_, firstIsClass := s.(cascadia.ClassSelector)
-			if !firstIsClass {
+			first := walk(s)
+			if len(first) != 1 || !isClass(first[0]) {
 				return false
 			}
 			continue
-- 
2.43.0


From d073abede5056f28bcb226c159b4e303e1911380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 21/41] fix: tell the pseudo-classes of a ::-webkit-
 pseudo-element from those of its element

---
 internal/cascadia/selector.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 6b1e6ed..6b3d784 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -439,10 +439,16 @@ func (c CompoundSelector) PseudoElementsString() string {
 	// sorting here because combinations are semantically the same
 	// regardless of order (e.g., focus:hover and hover:focus)
 	strs := make([]string, 0, len(elements))
+	start := 0 // the first of the pseudo-classes that apply to the same (pseudo-)element
 	for _, sel := range elements {
+		if t, ok := sel.(abstractPseudoClass); ok && strings.HasPrefix(t.name, "-webkit-") {
+			// the pseudo-classes after a pseudo-element apply to it, the ones before it to the element
+			slices.Sort[[]string](strs[start:])
+			start = len(strs) + 1
+		}
 		strs = append(strs, sel.String())
 	}
-	slices.Sort[[]string](strs)
+	slices.Sort[[]string](strs[start:])
 	return strings.Join(strs, "")
 }
 
-- 
2.43.0


From f2d64a767e47cfe9ba70f15ad87631e9d090e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 22/41] fix: two hyphens begin an identifier, whatever follows
 them

---
 internal/cascadia/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index edf0443..a8350a7 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -134,11 +134,17 @@ func (p *parser) parseIdentifier() (result string, err error) {
 		numPrefix++
 	}
 
+	atName := len(p.s) > p.i && (nameChar(p.s[p.i]) || p.s[p.i] == '\\')
+	if numPrefix >= 2 && !atName { // two hyphens are an identifier by themselves
+		return strings.Repeat(string(prefix), numPrefix), nil
+	}
+
 	if len(p.s) <= p.i {
 		return "", errors.New("expected identifier, found EOF instead")
 	}
 
-	if c := p.s[p.i]; !(nameStart(c) || c == '\\') {
+	// any name may follow two hyphens
+	if c := p.s[p.i]; numPrefix < 2 && !(nameStart(c) || c == '\\') {
 		return "", fmt.Errorf("expected identifier, found %c instead", c)
 	}
 
-- 
2.43.0


From e32d07e32eec75f0ec6adfffc421f9a1adcf1453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 23/41] fix: decode hexadecimal escapes in declarations

---
 internal/cascadia/rules.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index d3ef265..1772155 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"strconv"
 	"strings"
 
 	"github.com/tdewolff/parse/v2"
@@ -136,14 +137,33 @@ func CssUnescape(b []byte) string {
 	return string(b)
 
 foundEsc:
-	inEsc := false
 	for ; i < len(b); i++ {
-		if b[i] == '\\' && !inEsc {
-			inEsc = true
+		if b[i] != '\\' {
+			buf.WriteByte(b[i])
 			continue
 		}
-		buf.WriteByte(b[i])
-		inEsc = false
+		i++
+		if i == len(b) {
+			break
+		}
+		if !hexDigit(b[i]) {
+			buf.WriteByte(b[i])
+			continue
+		}
+		// unicode escape (hex): at most six digits and, possibly, white space that ends them
+		end := i
+		for end < len(b) && end < i+6 && hexDigit(b[end]) {
+			end++
+		}
+		v, _ := strconv.ParseUint(string(b[i:end]), 16, 64)
+		buf.WriteRune(rune(v))
+		if end+1 < len(b) && b[end] == '\r' && b[end+1] == '\n' {
+			end++
+		}
+		if end < len(b) && bytes.IndexByte([]byte(" \t\r\n\f"), b[end]) != -1 {
+			end++
+		}
+		i = end - 1
 	}
 	return buf.String()
 }
-- 
2.43.0


From 2d69278e81f8210e5e276c85086fee3464d34fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:42 +0000
Subject: [PATCH 24/41] fix: reject an empty regular expression wherever it
 stands in a selector

---
 internal/cascadia/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index a8350a7..a6b99d3 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -280,6 +280,9 @@ loop:
 	if i >= len(p.s) {
 		return nil, errors.New("EOF in regular expression")
 	}
+	if i == p.i {
+		return nil, errors.New("expected regular expression, found nothing")
+	}
 	rx, err = regexp.Compile(p.s[p.i:i])
 	p.i = i
 	return rx, err
-- 
2.43.0


From 18c18aa21264a7dc373a3897d67c4c99315023d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:34 +0000
Subject: [PATCH 25/41] fix: a medium after a selector is not a part of the
 selector

---
 merge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 4547aa5..4193179 100644
--- a/merge.go
+++ b/merge.go
@@ -210,7 +210,8 @@ func propModifier(class string, rule cascadia.CssRule) string {
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
 		// the condition keeps rules inside an at-rule apart from the ones outside of it
-		return removeClass(rule.Selector.String(), class) + rule.GetCondition()
+		// (the brace marks where the selector ends: "p" in print is not "pprint")
+		return removeClass(rule.Selector.String(), class) + "{" + rule.GetCondition()
 	}
 }
 
-- 
2.43.0


From 2395281de7dd8ab454c208c848c43c442a1cdef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 26/41] fix: leave the white space in strings as it is

---
 internal/cascadia/rules.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 1772155..bf9b49b 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -168,8 +168,27 @@ foundEsc:
 	return buf.String()
 }
 
+// normalizeWhitespace replaces the white space between the tokens of a value by single spaces.
+// The white space in strings is left as it is.
 func normalizeWhitespace(s string) string {
-	return strings.Join(strings.Fields(s), " ")
+	l := css.NewLexer(parse.NewInputString(s))
+	out := strings.Builder{}
+	space := false
+	for {
+		tt, data := l.Next()
+		switch tt {
+		case css.ErrorToken: // the end of the value
+			return out.String()
+		case css.WhitespaceToken:
+			space = out.Len() > 0
+			continue
+		}
+		if space {
+			out.WriteByte(' ')
+			space = false
+		}
+		out.Write(data)
+	}
 }
 
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
-- 
2.43.0


From 25bd4c2131fa527230c8182f2876d848a26e88d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:31 +0000
Subject: [PATCH 27/41] fix: the i flag of attribute selectors is about ASCII
 letters only

---
 internal/cascadia/selector.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 6b3d784..5998214 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -251,12 +251,12 @@ func (t AttrSelector) Match(n *html.Node) bool {
 	}
 }
 
-// matches elements where we ignore (or not) the case of the attribute value
+// matches elements where we ignore (or not) the case of the ASCII letters of the attribute value
 // the user attribute is the value set by the user to match elements
 // the real attribute is the attribute value found in the code parsed
 func matchInsensitiveValue(userAttr string, realAttr string, ignoreCase bool) bool {
 	if ignoreCase {
-		return strings.EqualFold(userAttr, realAttr)
+		return toLowerASCII(userAttr) == toLowerASCII(realAttr)
 	}
 	return userAttr == realAttr
 
@@ -333,7 +333,7 @@ func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 				return false
 			}
 			if ignoreCase {
-				return strings.HasPrefix(strings.ToLower(s), strings.ToLower(val))
+				return strings.HasPrefix(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.HasPrefix(s, val)
 		})
@@ -348,7 +348,7 @@ func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 				return false
 			}
 			if ignoreCase {
-				return strings.HasSuffix(strings.ToLower(s), strings.ToLower(val))
+				return strings.HasSuffix(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.HasSuffix(s, val)
 		})
@@ -363,7 +363,7 @@ func attributeSubstringMatch(key, val string, n *html.Node, ignoreCase bool) boo
 				return false
 			}
 			if ignoreCase {
-				return strings.Contains(strings.ToLower(s), strings.ToLower(val))
+				return strings.Contains(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.Contains(s, val)
 		})
-- 
2.43.0


From 9a2c2b5aa08b5843af0cdc4274142057c0a168e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 28/41] fix: the condition of an at-rule is the same however it
 is spelled

---
 internal/cascadia/rules.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index bf9b49b..bcac551 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -93,11 +93,38 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	if string(data) != "@media" && string(data) != "@supports" {
 		return "", ""
 	}
-	ruleBuilder := strings.Builder{}
-	for _, val := range values {
-		ruleBuilder.Write(val.Data)
+	return string(data), joinCondition(values, string(data) == "@media")
+}
+
+// joinCondition returns the text of the tokens of a condition, spelled in one way: white space around comparison signs,
+// around slashes and inside of parentheses does not matter, nor does case in media queries.
+func joinCondition(tokens []css.Token, media bool) string {
+	condition := strings.Builder{}
+	for i, token := range tokens {
+		text := string(token.Data)
+		switch token.TokenType {
+		case css.WhitespaceToken:
+			if i == 0 || i+1 == len(tokens) || isSign(tokens[i-1]) || isSign(tokens[i+1]) ||
+				tokens[i-1].TokenType == css.FunctionToken || tokens[i+1].TokenType == css.RightParenthesisToken {
+				continue
+			}
+			text = " "
+		case css.IdentToken, css.FunctionToken, css.DimensionToken:
+			if media && !strings.HasPrefix(text, "--") {
+				text = toLowerASCII(text)
+			}
+			if media && i > 0 && tokens[i-1].TokenType == css.RightParenthesisToken {
+				text = " " + text // there was a comment
+			}
+		}
+		condition.WriteString(text)
 	}
-	return string(data), strings.TrimSpace(ruleBuilder.String())
+	return condition.String()
+}
+
+// isSign reports whether a token is (part of) a comparison sign or a slash.
+func isSign(token css.Token) bool {
+	return token.TokenType == css.DelimToken && strings.Contains("<>=/", string(token.Data))
 }
 
 // atRule is a conditional group rule (e.g., @media) that a rule is nested in.
-- 
2.43.0


From d594a960f93cb5f8c1474edb01e3c5a402bbf0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 29/41] fix: a dot and a class name in a string are not the
 class

---
 merge.go | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/merge.go b/merge.go
index 4193179..d3eef9e 100644
--- a/merge.go
+++ b/merge.go
@@ -217,31 +217,27 @@ func propModifier(class string, rule cascadia.CssRule) string {
 
 // removeClass removes the name of a class from a serialized selector, leaving the dot in place.
 // Only whole class selectors are considered: other parts of the selector, which may
-// contain the same characters (e.g., "a" in ".dark .a"), are left alone.
+// contain the same characters (e.g., "a" in ".dark .a", or a string), are left alone.
 func removeClass(selector string, class string) string {
 	full := cascadia.ClassSelector{Class: class}.String()
 	out := strings.Builder{}
-	for {
-		i := strings.Index(selector, full)
-		if i == -1 {
-			break
-		}
+	inString := false
+	for i := 0; i < len(selector); i++ {
 		end := i + len(full)
-		before := selector[:i]
-		escaped := (len(before)-len(strings.TrimRight(before, "\\")))%2 == 1
-		if escaped {
-			out.WriteString(selector[:i+1])
-			selector = selector[i+1:]
+		switch {
+		case selector[i] == '\\' && i+1 < len(selector):
+			out.WriteByte(selector[i])
+			i++ // what follows is escaped
+		case selector[i] == '"':
+			inString = !inString
+		case !inString && strings.HasPrefix(selector[i:], full) &&
+			(end == len(selector) || strings.IndexByte(" .#[:>+~,)", selector[end]) != -1):
+			out.WriteByte('.')
+			i = end - 1
 			continue
 		}
-		if end == len(selector) || strings.IndexByte(" .#[:>+~,)", selector[end]) != -1 {
-			out.WriteString(selector[:i+1])
-		} else {
-			out.WriteString(selector[:end])
-		}
-		selector = selector[end:]
+		out.WriteByte(selector[i])
 	}
-	out.WriteString(selector)
 	return out.String()
 }
 
-- 
2.43.0


From 033fa91f0feca9f47c0822426b3d6cef05011386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:43 +0000
Subject: [PATCH 30/41] fix: reading a list of many selectors took quadratic
 time

---
 internal/cascadia/rules.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index bcac551..cd71c62 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -222,10 +222,10 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	p := css.NewParser(parse.NewInput(r), inline)
 	rules := make([]CssRule, 0)
 	var currentRule CssRule
-	var selectors SelectorGroup // the selectors of the current rule
-	precedingSelectors := ""    // the selectors read so far that are followed by a comma
-	var atRules []atRule        // the at-rules we are in, outermost first
-	ignoreDepth := 0            // number of open at-rules, counting from the outermost ignored one
+	var selectors SelectorGroup   // the selectors of the current rule
+	var preceding strings.Builder // the selectors read so far that are followed by a comma
+	var atRules []atRule          // the at-rules we are in, outermost first
+	ignoreDepth := 0              // number of open at-rules, counting from the outermost ignored one
 	ruleSetErr := false
 	var skippedErr error // the last parse error in a part that is ignored
 	for {
@@ -272,12 +272,12 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 				atRules = atRules[:len(atRules)-1]
 			}
 		case css.QualifiedRuleGrammar: // more of the selector list follows
-			precedingSelectors += joinTokens(p.Values()) + ","
+			preceding.WriteString(joinTokens(p.Values()) + ",")
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
 			currentRule.condition = joinConditions(atRules)
-			sels, err := getSelectors(precedingSelectors, p.Values())
-			precedingSelectors = ""
+			sels, err := getSelectors(preceding.String(), p.Values())
+			preceding.Reset()
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
 				ruleSetErr = true
-- 
2.43.0


From 8bc86fbcbb3c1f2ecfb58dab96871b7603244fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:32 +0000
Subject: [PATCH 31/41] fix: a no-break space is not nothing to :empty

---
 internal/cascadia/pseudo_classes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index d141620..81dede9 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -431,7 +431,7 @@ func (s EmptyElementPseudoClassSelector) Match(n *html.Node) bool {
 		case html.ElementNode:
 			return false
 		case html.TextNode:
-			if strings.TrimSpace(nodeText(c)) == "" {
+			if strings.Trim(nodeText(c), " \t\r\n\f") == "" {
 				continue
 			} else {
 				return false
-- 
2.43.0


From 136aac7621c963d9a0e39e2547f9470b56b9f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:34 +0000
Subject: [PATCH 32/41] fix: attribute values of no-break spaces have prefixes,
 suffixes and substrings

---
 internal/cascadia/selector.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 5998214..6a23941 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -329,7 +329,7 @@ func attributeDashMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if val == "" || strings.TrimSpace(s) == "" {
+			if val == "" || strings.Trim(s, " \t\r\n\f") == "" {
 				return false
 			}
 			if ignoreCase {
@@ -344,7 +344,7 @@ func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if val == "" || strings.TrimSpace(s) == "" {
+			if val == "" || strings.Trim(s, " \t\r\n\f") == "" {
 				return false
 			}
 			if ignoreCase {
@@ -359,7 +359,7 @@ func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSubstringMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if val == "" || strings.TrimSpace(s) == "" {
+			if val == "" || strings.Trim(s, " \t\r\n\f") == "" {
 				return false
 			}
 			if ignoreCase {
-- 
2.43.0


From 8d9dff0c6beacc6a6e5688bcf6a0d42680ca6979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 33/41] fix: a comment in a compound selector was taken for a
 descendant combinator

---
 internal/cascadia/parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index a6b99d3..d5a21eb 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -317,6 +317,17 @@ func (p *parser) skipWhitespace() bool {
 	return false
 }
 
+// skipComments consumes comments. Unlike white space, they do not end a compound selector.
+func (p *parser) skipComments() {
+	for strings.HasPrefix(p.s[p.i:], "/*") {
+		end := strings.Index(p.s[p.i+len("/*"):], "*/")
+		if end == -1 {
+			return
+		}
+		p.i += end + len("/**/")
+	}
+}
+
 // consumeParenthesis consumes an opening parenthesis and any following
 // whitespace. It returns true if there was actually a parenthesis to skip.
 func (p *parser) consumeParenthesis() bool {
@@ -844,7 +855,7 @@ func (p *parser) parseSimpleSelectorSequence() (Sel, error) {
 
 	var pseudoElement string
 loop:
-	for p.i < len(p.s) {
+	for p.skipComments(); p.i < len(p.s); p.skipComments() {
 		var (
 			ns               Sel
 			newPseudoElement string
-- 
2.43.0


From 44f4540344d5d9dd858457795929ad2d0a5cff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 34/41] fix: options are disabled by their group, fieldsets by
 those around them

---
 internal/cascadia/pseudo_classes.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 81dede9..abc153d 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -499,9 +499,11 @@ func (s EnabledPseudoClassSelector) Match(n *html.Node) bool {
 	switch n.DataAtom {
 	case atom.A, atom.Area, atom.Link:
 		return hasAttr(n, "href")
-	case atom.Optgroup, atom.Menuitem, atom.Fieldset:
+	case atom.Optgroup, atom.Menuitem:
 		return !hasAttr(n, "disabled")
-	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Option:
+	case atom.Option:
+		return !hasAttr(n, "disabled") && !inDisabledOptgroup(n)
+	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Fieldset:
 		return !hasAttr(n, "disabled") && !inDisabledFieldset(n)
 	}
 	return false
@@ -516,9 +518,11 @@ func (s DisabledPseudoClassSelector) Match(n *html.Node) bool {
 		return false
 	}
 	switch n.DataAtom {
-	case atom.Optgroup, atom.Menuitem, atom.Fieldset:
+	case atom.Optgroup, atom.Menuitem:
 		return hasAttr(n, "disabled")
-	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Option:
+	case atom.Option:
+		return hasAttr(n, "disabled") || inDisabledOptgroup(n)
+	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Fieldset:
 		return hasAttr(n, "disabled") || inDisabledFieldset(n)
 	}
 	return false
@@ -544,6 +548,11 @@ func inDisabledFieldset(n *html.Node) bool {
 	return inDisabledFieldset(n.Parent)
 }
 
+// inDisabledOptgroup reports whether an option is in a disabled group.
+func inDisabledOptgroup(n *html.Node) bool {
+	return n.Parent != nil && n.Parent.DataAtom == atom.Optgroup && hasAttr(n.Parent, "disabled")
+}
+
 type CheckedPseudoClassSelector struct {
 	abstractPseudoClass
 }
-- 
2.43.0


From f36e870b41f13e1d62ce2328c70011ba26b22acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 35/41] fix: links are not :enabled

---
 internal/cascadia/pseudo_classes.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index abc153d..2864689 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -497,8 +497,6 @@ func (s EnabledPseudoClassSelector) Match(n *html.Node) bool {
 		return false
 	}
 	switch n.DataAtom {
-	case atom.A, atom.Area, atom.Link:
-		return hasAttr(n, "href")
 	case atom.Optgroup, atom.Menuitem:
 		return !hasAttr(n, "disabled")
 	case atom.Option:
-- 
2.43.0


From 532a843789483935872fd0467103f70baa24eadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 36/41] fix: the escape of U+0000 stands for U+FFFD

---
 internal/cascadia/parser.go | 4 ++++
 internal/cascadia/rules.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index d5a21eb..238476d 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -36,6 +36,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 // a parser for CSS selectors
@@ -66,6 +67,9 @@ func (p *parser) parseEscape() (result string, err error) {
 			// empty
 		}
 		v, _ := strconv.ParseUint(p.s[start:i], 16, 64)
+		if v == 0 { // there is no such character in a document
+			v = utf8.RuneError
+		}
 		if len(p.s) > i {
 			switch p.s[i] {
 			case '\r':
diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index cd71c62..0efeac6 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/tdewolff/parse/v2"
 	"github.com/tdewolff/parse/v2/css"
@@ -183,6 +184,9 @@ foundEsc:
 			end++
 		}
 		v, _ := strconv.ParseUint(string(b[i:end]), 16, 64)
+		if v == 0 { // there is no such character in a document
+			v = utf8.RuneError
+		}
 		buf.WriteRune(rune(v))
 		if end+1 < len(b) && b[end] == '\r' && b[end+1] == '\n' {
 			end++
-- 
2.43.0


From 89ebebe4387143dcd8b9560a52563cdeadc17115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 37/41] fix: read stylesheets by Read alone, do not use or
 overwrite the bytes of a buffer

---
 internal/cascadia/rules.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 0efeac6..bc80686 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -223,6 +223,10 @@ func normalizeWhitespace(s string) string {
 }
 
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
+	if r != nil {
+		// hide other methods of the reader: the parser would use (and overwrite) the Bytes of a bytes.Buffer
+		r = struct{ io.Reader }{r}
+	}
 	p := css.NewParser(parse.NewInput(r), inline)
 	rules := make([]CssRule, 0)
 	var currentRule CssRule
-- 
2.43.0


From c4156da4ce6bdf51bfe6a82dd24193ceb905ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 38/41] fix: names and strings with many escapes are read in
 linear time

---
 internal/cascadia/parser.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 238476d..8549eb7 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -163,6 +163,7 @@ func (p *parser) parseIdentifier() (result string, err error) {
 // extra restrictions on the first character).
 func (p *parser) parseName() (result string, err error) {
 	i := p.i
+	var name strings.Builder
 loop:
 	for i < len(p.s) {
 		c := p.s[i]
@@ -172,7 +173,7 @@ loop:
 			for i < len(p.s) && nameChar(p.s[i]) {
 				i++
 			}
-			result += p.s[start:i]
+			name.WriteString(p.s[start:i])
 		case c == '\\':
 			p.i = i
 			val, err := p.parseEscape()
@@ -180,18 +181,18 @@ loop:
 				return "", err
 			}
 			i = p.i
-			result += val
+			name.WriteString(val)
 		default:
 			break loop
 		}
 	}
 
-	if result == "" {
+	if name.Len() == 0 {
 		return "", errors.New("expected name, found EOF instead")
 	}
 
 	p.i = i
-	return result, nil
+	return name.String(), nil
 }
 
 // parseString parses a single- or double-quoted string.
@@ -203,6 +204,7 @@ func (p *parser) parseString() (result string, err error) {
 
 	quote := p.s[i]
 	i++
+	var text strings.Builder
 
 loop:
 	for i < len(p.s) {
@@ -227,7 +229,7 @@ loop:
 				return "", err
 			}
 			i = p.i
-			result += val
+			text.WriteString(val)
 		case quote:
 			break loop
 		case '\r', '\n', '\f':
@@ -240,7 +242,7 @@ loop:
 				}
 				i++
 			}
-			result += p.s[start:i]
+			text.WriteString(p.s[start:i])
 		}
 	}
 
@@ -252,7 +254,7 @@ loop:
 	i++
 
 	p.i = i
-	return result, nil
+	return text.String(), nil
 }
 
 // parseRegex parses a regular expression; the end is defined by encountering an
-- 
2.43.0


From 2f41bb0fcc2b912422182886e27304abeaa01c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 39/41] fix: selectors with many combinators are walked and
 written in linear time

---
 internal/cascadia/serialize.go | 19 +++++++++++++++----
 merge.go                       |  6 ++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 3c7c50e..34ea5e6 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -31,6 +31,7 @@ package cascadia
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 )
@@ -251,11 +252,21 @@ func (c CompoundSelector) String() string {
 }
 
 func (c CombinedSelector) String() string {
-	start := c.first.String()
-	if c.second != nil {
-		start += fmt.Sprintf(" %s %s", string(c.combinator), c.second.String())
+	// the first parts may be nested as deeply as there are combinators
+	var rest []string
+	var first Sel = c
+	for {
+		t, ok := first.(CombinedSelector)
+		if !ok {
+			break
+		}
+		if t.second != nil {
+			rest = append(rest, fmt.Sprintf(" %s %s", string(t.combinator), t.second.String()))
+		}
+		first = t.first
 	}
-	return start
+	slices.Reverse(rest)
+	return first.String() + strings.Join(rest, "")
 }
 
 func (c SelectorGroup) String() string {
diff --git a/merge.go b/merge.go
index d3eef9e..c969481 100644
--- a/merge.go
+++ b/merge.go
@@ -60,10 +60,8 @@ func walk(selector cascadia.Sel) []cascadia.Sel {
 	var selectors []cascadia.Sel
 	switch t := selector.(type) {
 	case cascadia.CombinedSelector:
-		subSelectors := walk(t.First())
-		selectors = append(selectors, subSelectors...)
-		subSelectors = walk(t.Second())
-		selectors = append(selectors, subSelectors...)
+		// (the first one may have as many as there are combinators: they are not copied again)
+		selectors = append(walk(t.First()), walk(t.Second())...)
 	case cascadia.CompoundSelector:
 		for _, subSelector := range t.Selectors() {
 			subSelectors := walk(subSelector)
-- 
2.43.0


From 22b7f592c4bae2160889c87958f7b8cdc3394f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:31 +0000
Subject: [PATCH 40/41] fix: selectors that are nested endlessly are rejected
 instead of overflowing the stack

---
 internal/cascadia/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 8549eb7..7c48ac9 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -47,8 +47,14 @@ type parser struct {
 	// if `false`, parsing a pseudo-element
 	// returns an error.
 	acceptPseudoElements bool
+
+	depth int // the number of selector lists we are in, e.g. of :not()
 }
 
+// maxDepth is how deeply selectors may be nested in one another, e.g. in :not().
+// What is done with a selector is recursive, and the stack is not endless.
+const maxDepth = 1000
+
 // parseEscape parses a backslash escape.
 func (p *parser) parseEscape() (result string, err error) {
 	if len(p.s) < p.i+2 || p.s[p.i] != '\\' {
@@ -496,6 +502,7 @@ var (
 	errExpectedParenthesis        = errors.New("expected '(' but didn't find it")
 	errExpectedClosingParenthesis = errors.New("expected ')' but didn't find it")
 	errUnmatchedParenthesis       = errors.New("unmatched '('")
+	errNestedTooDeeply            = errors.New("selectors are nested too deeply")
 )
 
 // parsePseudoclassSelector parses a pseudoclass selector like :not(p) or a pseudo-element
@@ -541,7 +548,12 @@ func (p *parser) parsePseudoclassSelector() (out Sel, pseudoElement string, err
 		if !p.consumeParenthesis() {
 			return out, "", errExpectedParenthesis
 		}
+		if p.depth == maxDepth {
+			return out, "", errNestedTooDeeply
+		}
+		p.depth++
 		sel, parseErr := p.parseSelectorGroup()
+		p.depth--
 		if parseErr != nil {
 			return out, "", parseErr
 		}
-- 
2.43.0


From ced7d1cb2bcae1052e0004b77d52dfa76edd6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 41/41] fix: selectors with millions of combinators do not
 overflow the stack

---
 internal/cascadia/selector.go | 13 +++++++++----
 merge.go                      | 13 +++++++++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 6a23941..9f0501d 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -541,11 +541,16 @@ func siblingMatch(s1, s2 Matcher, adjacent bool, n *html.Node) bool {
 }
 
 func (s CombinedSelector) Specificity() Specificity {
-	spec := s.first.Specificity()
-	if s.second != nil {
-		spec = spec.Add(s.second.Specificity())
+	var spec Specificity
+	// the first parts may be nested as deeply as there are combinators
+	var first Sel = s
+	for t, ok := first.(CombinedSelector); ok; t, ok = first.(CombinedSelector) {
+		if t.second != nil {
+			spec = spec.Add(t.second.Specificity())
+		}
+		first = t.first
 	}
-	return spec
+	return spec.Add(first.Specificity())
 }
 
 // on combinedSelector, a pseudo-element only makes sense on the last
diff --git a/merge.go b/merge.go
index c969481..b328d65 100644
--- a/merge.go
+++ b/merge.go
@@ -60,8 +60,17 @@ func walk(selector cascadia.Sel) []cascadia.Sel {
 	var selectors []cascadia.Sel
 	switch t := selector.(type) {
 	case cascadia.CombinedSelector:
-		// (the first one may have as many as there are combinators: they are not copied again)
-		selectors = append(walk(t.First()), walk(t.Second())...)
+		// the first parts may be nested as deeply as there are combinators
+		seconds := []cascadia.Sel{t.Second()}
+		first := t.First()
+		for combined, ok := first.(cascadia.CombinedSelector); ok; combined, ok = first.(cascadia.CombinedSelector) {
+			seconds = append(seconds, combined.Second())
+			first = combined.First()
+		}
+		selectors = append(selectors, walk(first)...)
+		for i := len(seconds) - 1; i >= 0; i-- {
+			selectors = append(selectors, walk(seconds[i])...)
+		}
 	case cascadia.CompoundSelector:
 		for _, subSelector := range t.Selectors() {
 			subSelectors := walk(subSelector)
-- 
2.43.0

