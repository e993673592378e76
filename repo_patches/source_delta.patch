From e789d565f91a1862c78e104a98f93d5c7705e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 01/58] fix: keep the right class when two classes share a
 selector

Winners were recorded by selector text and mapped back to a class; two
classes named in one selector (.a.b, .group:hover .x) have the same text,
so one of them was dropped although nothing overrode it. Record the class.
---
 merge.go | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/merge.go b/merge.go
index 8cd99b9..b995aaa 100644
--- a/merge.go
+++ b/merge.go
@@ -212,14 +212,13 @@ func (r *Merger) Merge(inClass string) string {
 	}
 
 	keepClasses := make([]string, 0, len(split))
-	selectorToClass := make(map[string]string, len(split))
 
 	// propsToClasses is a map of properties that are shared between classes
 	// The property name may have a condition (pseudo or media) appended to it (e.g., "height:hover": ["h-10", "h-20"])
-	propsToSelectors := make(map[string]string, len(split))
-	importantPropsToSelectors := make(map[string]string, len(split))
-	customVarsToSelectors := make(map[string]string, len(split)) // map of custom vars to the class that set them
-	propsToCustomVars := make(map[string][]string, len(split))   // map of props to the custom vars that it uses
+	propsToClasses := make(map[string]string, len(split))
+	importantPropsToClasses := make(map[string]string, len(split))
+	customVarsToClasses := make(map[string]string, len(split)) // map of custom vars to the class that set them
+	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
@@ -228,7 +227,6 @@ func (r *Merger) Merge(inClass string) string {
 			continue
 		}
 
-		selectorToClass[rule.Selector.String()] = class
 		propMod := propModifier(class, rule)
 
 		for _, prop := range r.getAffectedProps(rule) {
@@ -246,45 +244,42 @@ func (r *Merger) Merge(inClass string) string {
 
 				// if the property is marked !important, add the class to the importantProps map
 				if importantRegex.MatchString(dec.Value) {
-					importantPropsToSelectors[prop] = rule.Selector.String()
+					importantPropsToClasses[prop] = class
 				}
 			}
 
 			// if it has a custom prop, add it to the customVars map
 			if strings.HasPrefix(prop, "--") {
-				customVarsToSelectors[prop] = rule.Selector.String()
+				customVarsToClasses[prop] = class
 				continue
 			}
 
 			// add all classes to the propsToClasses map
-			propsToSelectors[prop] = rule.Selector.String()
+			propsToClasses[prop] = class
 		}
 	}
 
 	// keep the last class in the list for each property
 	// importantly, this keeps classes that uniquely define a property, even if it has properties that conflict with other classes
-	for _, sel := range propsToSelectors {
-		class := selectorToClass[sel]
+	for _, class := range propsToClasses {
 		keepClasses = append(keepClasses, class)
 	}
 
 	// If a class has an !important property, it is kept unless another class comes later in the class string and it is marked !important on the same property.
-	for _, sel := range importantPropsToSelectors {
+	for _, class := range importantPropsToClasses {
 		// This does not remove the class that the the important class is overriding,
 		// but it shouldn't matter because the important class will override the other,
 		// and the other class may have other properties that are not being overridden
-		class := selectorToClass[sel]
 		keepClasses = append(keepClasses, class)
 	}
 
 	// keep the class that sets the last definition of each custom property if that custom property is actually used
-	for custVar, sel := range customVarsToSelectors {
+	for custVar, class := range customVarsToClasses {
 		for _, vars := range propsToCustomVars {
 			// if the custom property is actually used, keep the class that sets it
 			if !slices.Contains(vars, custVar) {
 				continue
 			}
-			class := selectorToClass[sel]
 			keepClasses = append(keepClasses, class)
 			break
 		}
-- 
2.43.0


From e979e8809b5f63805708b1a3a565cfa0afa762da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 02/58] fix: apply !important and var() only to the declaration
 that has them

Every declaration of a rule was considered for each property the rule sets,
so one !important declaration protected all the properties of its class, and
the custom properties a property uses were overwritten by whatever the last
declaration of the rule uses (often nothing), dropping the class that sets
them. Look at each declaration with the properties it sets itself.
---
 merge.go | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/merge.go b/merge.go
index b995aaa..6bfa17d 100644
--- a/merge.go
+++ b/merge.go
@@ -112,20 +112,17 @@ func (r *Merger) AddRules(reader io.Reader, inline bool) error {
 	return nil
 }
 
-func (r *Merger) getAffectedProps(rule cascadia.CssRule) []string {
-	affectedProps := make([]string, 0, len(rule.Declarations)*4) // 4 is arbitrary. reducing allocations
-	for _, dec := range rule.Declarations {
-		prop, ok := r.properties[dec.Property]
-		if !ok {
-			// Allowing these through, maybe they shouldn't be but
-			// this allows properties like stroke, fill, etc. to be used
-			// which are not in the mdn official list of props
-			// IMPORTANT: we are relying on this to let custom properties through
-			affectedProps = append(affectedProps, dec.Property)
-		}
-		affectedProps = append(affectedProps, prop.ComputedProps()...)
+// getAffectedProps returns the names of the individual properties that a declaration sets.
+func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
+	prop, ok := r.properties[dec.Property]
+	if !ok {
+		// Allowing these through, maybe they shouldn't be but
+		// this allows properties like stroke, fill, etc. to be used
+		// which are not in the mdn official list of props
+		// IMPORTANT: we are relying on this to let custom properties through
+		return []string{dec.Property}
 	}
-	return unique(affectedProps)
+	return prop.ComputedProps()
 }
 
 var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
@@ -229,11 +226,11 @@ func (r *Merger) Merge(inClass string) string {
 
 		propMod := propModifier(class, rule)
 
-		for _, prop := range r.getAffectedProps(rule) {
+		for _, dec := range rule.Declarations {
 
-			prop = prop + propMod
+			for _, prop := range r.getAffectedProps(dec) {
 
-			for _, dec := range rule.Declarations {
+				prop = prop + propMod
 
 				if !strings.HasPrefix(prop, "--") {
 					// if the property has a custom var, add it to the propsToCustomVars map
@@ -246,16 +243,16 @@ func (r *Merger) Merge(inClass string) string {
 				if importantRegex.MatchString(dec.Value) {
 					importantPropsToClasses[prop] = class
 				}
-			}
 
-			// if it has a custom prop, add it to the customVars map
-			if strings.HasPrefix(prop, "--") {
-				customVarsToClasses[prop] = class
-				continue
-			}
+				// if it has a custom prop, add it to the customVars map
+				if strings.HasPrefix(prop, "--") {
+					customVarsToClasses[prop] = class
+					continue
+				}
 
-			// add all classes to the propsToClasses map
-			propsToClasses[prop] = class
+				// add all classes to the propsToClasses map
+				propsToClasses[prop] = class
+			}
 		}
 	}
 
-- 
2.43.0


From bfdc41964deae37732ea57550e930570779698c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:35 +0000
Subject: [PATCH 03/58] fix: count the custom properties of every declaration a
 class has for a property

A rule may declare a property twice (a fallback and the preferred value);
only the custom properties used by the second were seen as used.
---
 merge.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 6bfa17d..afea105 100644
--- a/merge.go
+++ b/merge.go
@@ -235,7 +235,11 @@ func (r *Merger) Merge(inClass string) string {
 				if !strings.HasPrefix(prop, "--") {
 					// if the property has a custom var, add it to the propsToCustomVars map
 					customVars := getCustomVarsInDec(dec)
-					// overwrite the customVars so we prioritize the last class that sets the property
+					// overwrite the customVars so we prioritize the last class that sets the property,
+					// but keep those of an earlier declaration of the same class (e.g., a fallback)
+					if propsToClasses[prop] == class {
+						customVars = append(customVars, propsToCustomVars[prop]...)
+					}
 					propsToCustomVars[prop] = customVars
 				}
 
-- 
2.43.0


From 1f0513aeb1a75d28cd5889b7fbd7417924d66153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 04/58] fix: keep classes that set a used custom property under
 a condition

The condition was part of the name looked up among the used custom
properties, so a setter under @media, :hover, etc. was always dropped.
---
 merge.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/merge.go b/merge.go
index afea105..88d3c0b 100644
--- a/merge.go
+++ b/merge.go
@@ -215,6 +215,7 @@ func (r *Merger) Merge(inClass string) string {
 	propsToClasses := make(map[string]string, len(split))
 	importantPropsToClasses := make(map[string]string, len(split))
 	customVarsToClasses := make(map[string]string, len(split)) // map of custom vars to the class that set them
+	customVarNames := make(map[string]string, len(split))      // map of custom vars (with condition) to their names
 	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
@@ -228,9 +229,9 @@ func (r *Merger) Merge(inClass string) string {
 
 		for _, dec := range rule.Declarations {
 
-			for _, prop := range r.getAffectedProps(dec) {
+			for _, name := range r.getAffectedProps(dec) {
 
-				prop = prop + propMod
+				prop := name + propMod
 
 				if !strings.HasPrefix(prop, "--") {
 					// if the property has a custom var, add it to the propsToCustomVars map
@@ -251,6 +252,7 @@ func (r *Merger) Merge(inClass string) string {
 				// if it has a custom prop, add it to the customVars map
 				if strings.HasPrefix(prop, "--") {
 					customVarsToClasses[prop] = class
+					customVarNames[prop] = name
 					continue
 				}
 
@@ -278,7 +280,7 @@ func (r *Merger) Merge(inClass string) string {
 	for custVar, class := range customVarsToClasses {
 		for _, vars := range propsToCustomVars {
 			// if the custom property is actually used, keep the class that sets it
-			if !slices.Contains(vars, custVar) {
+			if !slices.Contains(vars, customVarNames[custVar]) {
 				continue
 			}
 			keepClasses = append(keepClasses, class)
-- 
2.43.0


From 59647b1a7042bdd8b604fa7e00b62017f5e84b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:41 +0000
Subject: [PATCH 05/58] fix: keep classes that set a custom property used
 through another one

Only custom properties used directly by an ordinary property counted as
used, so in 'ring ring-red' the class that sets the colour used by the
ring shadow's own custom property was dropped. Follow the definitions, and
look at the last !important declaration as well, which may be the winner.
---
 merge.go | 63 ++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/merge.go b/merge.go
index 88d3c0b..5408861 100644
--- a/merge.go
+++ b/merge.go
@@ -217,6 +217,7 @@ func (r *Merger) Merge(inClass string) string {
 	customVarsToClasses := make(map[string]string, len(split)) // map of custom vars to the class that set them
 	customVarNames := make(map[string]string, len(split))      // map of custom vars (with condition) to their names
 	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
+	importantPropsToCustomVars := make(map[string][]string)    // map of props to the custom vars that its !important declaration uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
 		if !ok {
@@ -233,19 +234,22 @@ func (r *Merger) Merge(inClass string) string {
 
 				prop := name + propMod
 
-				if !strings.HasPrefix(prop, "--") {
-					// if the property has a custom var, add it to the propsToCustomVars map
-					customVars := getCustomVarsInDec(dec)
-					// overwrite the customVars so we prioritize the last class that sets the property,
-					// but keep those of an earlier declaration of the same class (e.g., a fallback)
-					if propsToClasses[prop] == class {
-						customVars = append(customVars, propsToCustomVars[prop]...)
-					}
-					propsToCustomVars[prop] = customVars
+				// if the property has a custom var, add it to the propsToCustomVars map
+				customVars := getCustomVarsInDec(dec)
+				// overwrite the customVars so we prioritize the last class that sets the property,
+				// but keep those of an earlier declaration of the same class (e.g., a fallback)
+				if propsToClasses[prop] == class || customVarsToClasses[prop] == class {
+					customVars = append(customVars, propsToCustomVars[prop]...)
 				}
+				propsToCustomVars[prop] = customVars
 
 				// if the property is marked !important, add the class to the importantProps map
 				if importantRegex.MatchString(dec.Value) {
+					customVars := getCustomVarsInDec(dec)
+					if importantPropsToClasses[prop] == class {
+						customVars = append(customVars, importantPropsToCustomVars[prop]...)
+					}
+					importantPropsToCustomVars[prop] = customVars
 					importantPropsToClasses[prop] = class
 				}
 
@@ -276,18 +280,45 @@ func (r *Merger) Merge(inClass string) string {
 		keepClasses = append(keepClasses, class)
 	}
 
-	// keep the class that sets the last definition of each custom property if that custom property is actually used
-	for custVar, class := range customVarsToClasses {
-		for _, vars := range propsToCustomVars {
-			// if the custom property is actually used, keep the class that sets it
-			if !slices.Contains(vars, customVarNames[custVar]) {
+	// find the custom properties that are used, either by a property
+	// or by the last definition of another custom property that is used
+	usedVars := make(map[string]bool)
+	for _, propVars := range []map[string][]string{propsToCustomVars, importantPropsToCustomVars} {
+		for prop, vars := range propVars {
+			if _, isCustom := customVarNames[prop]; isCustom {
 				continue
 			}
-			keepClasses = append(keepClasses, class)
-			break
+			for _, v := range vars {
+				usedVars[v] = true
+			}
+		}
+	}
+	for found := true; found; {
+		found = false
+		for custVar, name := range customVarNames {
+			if !usedVars[name] {
+				continue
+			}
+			for _, propVars := range []map[string][]string{propsToCustomVars, importantPropsToCustomVars} {
+				for _, v := range propVars[custVar] {
+					if !usedVars[v] {
+						usedVars[v] = true
+						found = true
+					}
+				}
+			}
 		}
 	}
 
+	// keep the class that sets the last definition of each custom property if that custom property is actually used
+	for custVar, class := range customVarsToClasses {
+		// if the custom property is actually used, keep the class that sets it
+		if !usedVars[customVarNames[custVar]] {
+			continue
+		}
+		keepClasses = append(keepClasses, class)
+	}
+
 	keepClasses = unique(keepClasses)
 	if r.keepSort {
 		sortSubset(keepClasses, split)
-- 
2.43.0


From 97616e4e4a65878b0d335319c67cada1cfe88ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 06/58] fix: do not let a rule for a pseudo-element override
 one for the element

.a::before and .b were compared as if they applied to the same thing, so
a class styling a pseudo-element removed, or was removed by, a class styling
the element itself or another pseudo-element.
---
 internal/cascadia/selector.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 8981252..9359b9b 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -440,6 +440,9 @@ func (c CompoundSelector) PseudoElementsString() string {
 		strs = append(strs, sel.String())
 	}
 	slices.Sort[[]string](strs)
+	if c.pseudoElement != "" {
+		strs = append(strs, "::"+c.pseudoElement)
+	}
 	return strings.Join(strs, "")
 }
 
-- 
2.43.0


From 0d1be7c35255bef3ffaf92343629dc266bc936be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 07/58] fix: respect the at-rule around rules with compound or
 combined selectors

The enclosing @media/@supports condition was only looked at for rules whose
selector is a single class, so .md\:hover\:a:hover inside @media overrode
.hover\:b:hover outside it.
---
 internal/cascadia/rules.go | 2 +-
 merge.go                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 09c55d2..aece043 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -45,7 +45,7 @@ func (r CssRule) GetSelector() string {
 
 func (r CssRule) GetCondition() string {
 	if t, ok := r.Selector.(CompoundSelector); ok {
-		return t.PseudoElementsString()
+		return r.condition + t.PseudoElementsString()
 	}
 	return r.condition
 }
diff --git a/merge.go b/merge.go
index 5408861..5d59343 100644
--- a/merge.go
+++ b/merge.go
@@ -185,7 +185,7 @@ func propModifier(class string, rule cascadia.CssRule) string {
 	} else {
 		// use the selector with the class name removed to codify what the selector is being applied to
 		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return strings.Replace(s, class, "", 1)
+		return rule.GetCondition() + " " + strings.Replace(s, class, "", 1)
 	}
 }
 
-- 
2.43.0


From 0944a1f2dbab608ed73dbe4d28505179882229b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 08/58] fix: do not panic on an at-rule without a condition

@media{...} is legal CSS (it always applies).
---
 internal/cascadia/rules.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index aece043..721c6d9 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -83,9 +83,6 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 	if string(data) != "@media" && string(data) != "@supports" {
 		return "", ""
 	}
-	if len(values) == 0 {
-		panic("no values")
-	}
 	ruleBuilder := strings.Builder{}
 	for _, val := range values {
 		ruleBuilder.Write(val.Data)
-- 
2.43.0


From 3cf880a1c6795b50e6aabb9c4608c42c776db769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 09/58] fix: stop at the end of the input when skipping an
 unbalanced block

Input such as '@keyframes x { ) }' or '.:bad { @x ) }' made ExtractRules
loop forever, because the end of the skipped block never comes.
---
 internal/cascadia/rules.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 721c6d9..9c892bb 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -134,6 +134,10 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
+		if gt == css.ErrorGrammar && !p.HasParseError() && (ignore || ruleSetErr) {
+			// the input ends but the parser never reported the end of the block we are skipping
+			return rules, fmt.Errorf("encountered error parsing CSS: %v", io.ErrUnexpectedEOF)
+		}
 		if ignore && gt != css.EndAtRuleGrammar {
 			continue
 		}
-- 
2.43.0


From 2be5131180707ec1892b49a1d9d5c83ec1d31575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 10/58] fix: keep track of nested at-rules

Only the innermost condition was remembered, and the end of any at-rule
(even a skipped one) cleared it, so rules in nested blocks, and rules after
one, were compared as if the outer condition were not there. Skipping also
ended at the first nested block of a skipped at-rule.
---
 internal/cascadia/rules.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 9c892bb..abb2601 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -129,16 +129,21 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
-	var atRuleCondition string
-	ignore := false
+	var atRuleConditions []string // conditions of the enclosing at-rules, outermost first
+	ignoreDepth := 0              // number of enclosing at-rules counting from an ignored one
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
-		if gt == css.ErrorGrammar && !p.HasParseError() && (ignore || ruleSetErr) {
+		if gt == css.ErrorGrammar && !p.HasParseError() && (ignoreDepth > 0 || ruleSetErr) {
 			// the input ends but the parser never reported the end of the block we are skipping
 			return rules, fmt.Errorf("encountered error parsing CSS: %v", io.ErrUnexpectedEOF)
 		}
-		if ignore && gt != css.EndAtRuleGrammar {
+		if ignoreDepth > 0 {
+			if gt == css.BeginAtRuleGrammar {
+				ignoreDepth++
+			} else if gt == css.EndAtRuleGrammar {
+				ignoreDepth--
+			}
 			continue
 		}
 
@@ -161,17 +166,20 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 		case css.BeginAtRuleGrammar:
 			name, condition := parseAtRuleName(data, p.Values())
 			if name == "" {
-				atRuleCondition = ""
-				ignore = true
+				ignoreDepth = 1
 				continue
 			}
-			atRuleCondition = condition
+			if name == "@supports" {
+				condition = name + " " + condition
+			}
+			atRuleConditions = append(atRuleConditions, condition)
 		case css.EndAtRuleGrammar:
-			atRuleCondition = ""
-			ignore = false
+			if len(atRuleConditions) > 0 {
+				atRuleConditions = atRuleConditions[:len(atRuleConditions)-1]
+			}
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
-			currentRule.condition = atRuleCondition
+			currentRule.condition = strings.Join(atRuleConditions, "{")
 			sel, err := getSelector(data, p.Values())
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
-- 
2.43.0


From 925367935e7126a6484f90aa50b002c15816a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 11/58] fix: do not return a rule without selector for a
 skipped rule set

---
 internal/cascadia/rules.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index abb2601..c85c7bd 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -151,6 +151,7 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			continue
 		} else if ruleSetErr && gt == css.EndRulesetGrammar {
 			ruleSetErr = false
+			continue
 		}
 
 		switch gt {
-- 
2.43.0


From 7b6726595a6745347fee0279b5c161bc81f62c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 12/58] fix: load all selectors of a list, and selectors with
 commas inside parentheses

The CSS parser hands out the text before each comma separately; only the
text after the last comma was looked at. So .a in '.a, .b {}' was not known,
and '.a:is(.x, .y) {}' was skipped as malformed.
---
 internal/cascadia/rules.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index c85c7bd..67abaef 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -67,13 +67,15 @@ type CssDeclaration struct {
 	Value    string // Value is the value for the declaration (e.g., "red")
 }
 
-// getSelector parses the selector from the tokens
-func getSelector(data []byte, tokens []css.Token) (Sel, error) {
+// getSelectors parses the selectors from the tokens.
+// prefix is the text of the selector list up to and including the last comma, if there is one.
+func getSelectors(prefix string, tokens []css.Token) (SelectorGroup, error) {
 	fullSelector := strings.Builder{}
+	fullSelector.WriteString(prefix)
 	for _, val := range tokens {
 		fullSelector.Write(val.Data)
 	}
-	casc, err := ParseWithPseudoElement(fullSelector.String())
+	casc, err := ParseGroupWithPseudoElements(fullSelector.String())
 	return casc, err
 }
 
@@ -129,8 +131,10 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
-	var atRuleConditions []string // conditions of the enclosing at-rules, outermost first
-	ignoreDepth := 0              // number of enclosing at-rules counting from an ignored one
+	var currentSelectors SelectorGroup
+	var selectorPrefix strings.Builder // text of the selector list before the last comma
+	var atRuleConditions []string      // conditions of the enclosing at-rules, outermost first
+	ignoreDepth := 0                   // number of enclosing at-rules counting from an ignored one
 	ruleSetErr := false
 	for {
 		gt, _, data := p.Next()
@@ -178,22 +182,32 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			if len(atRuleConditions) > 0 {
 				atRuleConditions = atRuleConditions[:len(atRuleConditions)-1]
 			}
+		case css.QualifiedRuleGrammar:
+			// the parser splits the selector at every comma, even inside parentheses
+			for _, val := range p.Values() {
+				selectorPrefix.Write(val.Data)
+			}
+			selectorPrefix.WriteByte(',')
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
 			currentRule.condition = strings.Join(atRuleConditions, "{")
-			sel, err := getSelector(data, p.Values())
+			selectors, err := getSelectors(selectorPrefix.String(), p.Values())
+			selectorPrefix.Reset()
 			if err != nil {
 				log.Println("error parsing rule:", err) // TODO: LOG this better
 				ruleSetErr = true
 				currentRule = CssRule{}
 				continue
 			}
-			currentRule.Selector = sel
+			currentSelectors = selectors
 		case css.DeclarationGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
 		case css.EndRulesetGrammar:
-			rules = append(rules, currentRule)
+			for _, sel := range currentSelectors {
+				currentRule.Selector = sel
+				rules = append(rules, currentRule)
+			}
 		case css.CustomPropertyGrammar:
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
-- 
2.43.0


From 9a2f5b4f67aa817da3904307a0158542c568d603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 13/58] fix: take the class itself out of the selector, not its
 first textual match

The circumstance of .md\:d in 'div .md\:d' was found by removing the first
occurrence of the class name in the selector text, which may be part of
another name ('d' in 'div'), and order and escapes of the rest were compared
as written. Then classes that do conflict were not recognised as such.
---
 internal/cascadia/selector.go | 45 +++++++++++++++++++++++++++++++++++
 merge.go                      |  6 ++---
 2 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index 9359b9b..d680818 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -564,3 +564,48 @@ func (s SelectorGroup) Match(n *html.Node) bool {
 	}
 	return false
 }
+
+// WithoutClass returns the text of sel with the first occurrence of class replaced by a lone dot,
+// and whether there is one. Like walk in the merge package, it does not look into :not() and :has().
+// The simple selectors of a compound are sorted, because their order has no meaning.
+func WithoutClass(sel Sel, class string) (string, bool) {
+	switch t := sel.(type) {
+	case ClassSelector:
+		if t.Class == class {
+			return ".", true
+		}
+	case CombinedSelector:
+		first, found := WithoutClass(t.first, class)
+		if found {
+			class = "" // only the first occurrence is taken out; no class has an empty name
+		}
+		second, foundSecond := WithoutClass(t.second, class)
+		return fmt.Sprintf("%s %c %s", first, t.combinator, second), found || foundSecond
+	case CompoundSelector:
+		parts, found := withoutClass(t.selectors, class)
+		slices.Sort(parts)
+		if t.pseudoElement != "" {
+			parts = append(parts, "::"+t.pseudoElement)
+		}
+		return strings.Join(parts, ""), found
+	case IsPseudoClassSelector:
+		parts, found := withoutClass(t.match, class)
+		return ":is(" + strings.Join(parts, ", ") + ")", found
+	case WherePseudoClassSelector:
+		parts, found := withoutClass(t.match, class)
+		return ":where(" + strings.Join(parts, ", ") + ")", found
+	}
+	return sel.String(), false
+}
+
+func withoutClass(sels []Sel, class string) (parts []string, found bool) {
+	for _, sel := range sels {
+		part, ok := WithoutClass(sel, class)
+		if ok {
+			found = true
+			class = "" // only the first occurrence is taken out; no class has an empty name
+		}
+		parts = append(parts, part)
+	}
+	return parts, found
+}
diff --git a/merge.go b/merge.go
index 5d59343..b3abdc3 100644
--- a/merge.go
+++ b/merge.go
@@ -183,9 +183,9 @@ func propModifier(class string, rule cascadia.CssRule) string {
 		// if the rule has a condition (:hover, :focus, etc.), add the condition to the property name
 		return rule.GetCondition()
 	} else {
-		// use the selector with the class name removed to codify what the selector is being applied to
-		s := cascadia.CssUnescape([]byte(rule.Selector.String()))
-		return rule.GetCondition() + " " + strings.Replace(s, class, "", 1)
+		// use the selector with the class removed to codify what the selector is being applied to
+		s, _ := cascadia.WithoutClass(rule.Selector, class)
+		return rule.GetCondition() + " " + s
 	}
 }
 
-- 
2.43.0


From 42d656f6d0d0b3aaeaa3521e2da3fc70b8fded95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:57 +0000
Subject: [PATCH 14/58] fix: consider all selectors of a list that mention the
 class

For '.a:hover, .a:focus {}' only the last selector counted, so a class that
overrides it on :focus alone removed it.
---
 internal/cascadia/rules.go | 16 +++++++++++++++
 merge.go                   | 42 +++++++++++++++++++++++++++++++-------
 2 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 67abaef..301b719 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -32,6 +32,7 @@ import (
 type CssRule struct {
 	Selector     Sel              // Selector is the selector for the rule
 	Declarations []CssDeclaration // Declarations is a list of declarations for the rule (e.g., property-value pairs)
+	list         SelectorGroup    // list is the selector list of the rule, if it has more than one selector
 	condition    string           // Condition is the condition for the rule (e.g., for an at-rule like @media)
 }
 
@@ -50,6 +51,18 @@ func (r CssRule) GetCondition() string {
 	return r.condition
 }
 
+// ForSelectors returns the rule once for each selector of its selector list.
+func (r CssRule) ForSelectors() []CssRule {
+	if len(r.list) == 0 {
+		return []CssRule{r}
+	}
+	rules := make([]CssRule, len(r.list))
+	for i, sel := range r.list {
+		rules[i] = CssRule{Selector: sel, Declarations: r.Declarations, condition: r.condition}
+	}
+	return rules
+}
+
 func (r CssRule) ToCssFormat() string {
 	dec := strings.Builder{}
 	for i, d := range r.Declarations {
@@ -204,6 +217,9 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			declaration := buildDeclaration(p, data)
 			currentRule.Declarations = append(currentRule.Declarations, declaration)
 		case css.EndRulesetGrammar:
+			if len(currentSelectors) > 1 {
+				currentRule.list = currentSelectors
+			}
 			for _, sel := range currentSelectors {
 				currentRule.Selector = sel
 				rules = append(rules, currentRule)
diff --git a/merge.go b/merge.go
index b3abdc3..7f23508 100644
--- a/merge.go
+++ b/merge.go
@@ -112,15 +112,31 @@ func (r *Merger) AddRules(reader io.Reader, inline bool) error {
 	return nil
 }
 
-// getAffectedProps returns the names of the individual properties that a declaration sets.
-func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration) []string {
-	prop, ok := r.properties[dec.Property]
+// affectedProp is an individual property that is set in a certain circumstance
+type affectedProp struct {
+	name, modifier string
+}
+
+// getAffectedProps returns the individual properties that a declaration sets in each of the circumstances.
+func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration, propMods []string) []affectedProp {
+	affectedProps := make([]affectedProp, 0, 4) // 4 is arbitrary. reducing allocations
+	for _, name := range r.expandProp(dec.Property) {
+		for _, propMod := range propMods {
+			affectedProps = append(affectedProps, affectedProp{name, propMod})
+		}
+	}
+	return affectedProps
+}
+
+// expandProp returns the names of the individual properties that a property stands for.
+func (r *Merger) expandProp(name string) []string {
+	prop, ok := r.properties[name]
 	if !ok {
 		// Allowing these through, maybe they shouldn't be but
 		// this allows properties like stroke, fill, etc. to be used
 		// which are not in the mdn official list of props
 		// IMPORTANT: we are relying on this to let custom properties through
-		return []string{dec.Property}
+		return []string{name}
 	}
 	return prop.ComputedProps()
 }
@@ -175,6 +191,18 @@ func isClass(sel cascadia.Sel) bool {
 	return false
 }
 
+// propModifiers returns the circumstances in which the class applies: one,
+// unless the rule has a selector list in which the class occurs in several selectors.
+func propModifiers(class string, rule cascadia.CssRule) []string {
+	propMods := make([]string, 0, 1)
+	for _, rule := range rule.ForSelectors() {
+		if _, ok := cascadia.WithoutClass(rule.Selector, class); ok {
+			propMods = append(propMods, propModifier(class, rule))
+		}
+	}
+	return unique(propMods)
+}
+
 // propModifier returns a string representing the circumstance in which the class applies.
 // This may be pseudo elements like hover, focus, etc. or, in the case of a combination selector,
 // it can be the selector with the class name removed
@@ -226,13 +254,13 @@ func (r *Merger) Merge(inClass string) string {
 			continue
 		}
 
-		propMod := propModifier(class, rule)
+		propMods := propModifiers(class, rule)
 
 		for _, dec := range rule.Declarations {
 
-			for _, name := range r.getAffectedProps(dec) {
+			for _, affected := range r.getAffectedProps(dec, propMods) {
 
-				prop := name + propMod
+				name, prop := affected.name, affected.name+affected.modifier
 
 				// if the property has a custom var, add it to the propsToCustomVars map
 				customVars := getCustomVarsInDec(dec)
-- 
2.43.0


From 781e5062144316d1ceed30ef4bb27de12bb70034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 15/58] fix: expand shorthands whose parts are shorthands
 themselves

border stands for border-top-width and so on, but only the first level was
expanded (to border-width), so border-t-2 and border did not conflict.
---
 merge.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 7f23508..d3a37cb 100644
--- a/merge.go
+++ b/merge.go
@@ -129,6 +129,7 @@ func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration, propMods []string
 }
 
 // expandProp returns the names of the individual properties that a property stands for.
+// The individual properties of a shorthand may be shorthands themselves.
 func (r *Merger) expandProp(name string) []string {
 	prop, ok := r.properties[name]
 	if !ok {
@@ -138,7 +139,15 @@ func (r *Merger) expandProp(name string) []string {
 		// IMPORTANT: we are relying on this to let custom properties through
 		return []string{name}
 	}
-	return prop.ComputedProps()
+	expanded := make([]string, 0, 4) // 4 is arbitrary. reducing allocations
+	for _, computed := range prop.ComputedProps() {
+		if computed == name {
+			expanded = append(expanded, name)
+			continue
+		}
+		expanded = append(expanded, r.expandProp(computed)...)
+	}
+	return expanded
 }
 
 var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
-- 
2.43.0


From ac51c266af7b5eb52a64d4b0b8de91ae8855c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 16/58] fix: expand the logical border shorthands to their own
 properties

border-block-end was listed as border-top-width/-style/-color and the others
as border-width/-style, so border-block-end removed border-t classes and,
once shorthands are expanded fully, border-inline-start all border widths.
---
 internal/props/gen/properties.json | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/internal/props/gen/properties.json b/internal/props/gen/properties.json
index 3308c26..06a2e51 100644
--- a/internal/props/gen/properties.json
+++ b/internal/props/gen/properties.json
@@ -1243,9 +1243,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
-        "color"
+        "-webkit-border-before-width",
+        "-webkit-border-before-style",
+        "-webkit-border-before-color"
       ],
       "order": "uniqueOrder",
       "status": "nonstandard",
@@ -2543,9 +2543,9 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-top-width",
-        "border-top-style",
-        "border-top-color"
+        "border-block-end-width",
+        "border-block-end-style",
+        "border-block-end-color"
       ],
       "order": "uniqueOrder",
       "status": "standard",
@@ -2619,8 +2619,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-block-start-width",
+        "border-block-start-style",
         "border-block-start-color"
       ],
       "order": "uniqueOrder",
@@ -3072,8 +3072,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-end-width",
+        "border-inline-end-style",
         "border-inline-end-color"
       ],
       "order": "uniqueOrder",
@@ -3196,8 +3196,8 @@
       ],
       "appliesto": "allElements",
       "computed": [
-        "border-width",
-        "border-style",
+        "border-inline-start-width",
+        "border-inline-start-style",
         "border-inline-start-color"
       ],
       "order": "uniqueOrder",
-- 
2.43.0


From 0b10de2d2601c89b4a2cc89b12263b933e8a58d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 17/58] fix: list the parts of border-block-width and other
 shorthands

border-block-*/border-inline-* (width, style, color), font-variant and
font-synthesis had no parts, so they did not conflict with the properties
they set.
---
 internal/props/gen/properties.json | 47 +++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/internal/props/gen/properties.json b/internal/props/gen/properties.json
index 06a2e51..d0c3f35 100644
--- a/internal/props/gen/properties.json
+++ b/internal/props/gen/properties.json
@@ -2486,7 +2486,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-block-start-color",
+        "border-block-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-color"
@@ -2502,7 +2505,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-block-start-style",
+        "border-block-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-style"
@@ -2518,7 +2524,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-block-start-width",
+        "border-block-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-block-width"
@@ -3091,7 +3100,10 @@
       ],
       "initial": "currentcolor",
       "appliesto": "allElements",
-      "computed": "computedColor",
+      "computed": [
+        "border-inline-start-color",
+        "border-inline-end-color"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-color"
@@ -3107,7 +3119,10 @@
       ],
       "initial": "none",
       "appliesto": "allElements",
-      "computed": "asSpecified",
+      "computed": [
+        "border-inline-start-style",
+        "border-inline-end-style"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-style"
@@ -3123,7 +3138,10 @@
       ],
       "initial": "medium",
       "appliesto": "allElements",
-      "computed": "absoluteLengthZeroIfBorderStyleNoneOrHidden",
+      "computed": [
+        "border-inline-start-width",
+        "border-inline-end-width"
+      ],
       "order": "uniqueOrder",
       "status": "standard",
       "mdn_url": "https://developer.mozilla.org/docs/Web/CSS/border-inline-width"
@@ -5075,7 +5093,12 @@
       ],
       "initial": "weight style small-caps position ",
       "appliesto": "allElementsAndText",
-      "computed": "asSpecified",
+      "computed": [
+        "font-synthesis-weight",
+        "font-synthesis-style",
+        "font-synthesis-small-caps",
+        "font-synthesis-position"
+      ],
       "order": "orderOfAppearance",
       "alsoAppliesTo": [
         "::first-letter",
@@ -5180,7 +5203,15 @@
       ],
       "initial": "normal",
       "appliesto": "allElementsAndText",
-      "computed": "asSpecified",
+      "computed": [
+        "font-variant-ligatures",
+        "font-variant-caps",
+        "font-variant-alternates",
+        "font-variant-numeric",
+        "font-variant-east-asian",
+        "font-variant-position",
+        "font-variant-emoji"
+      ],
       "order": "uniqueOrder",
       "alsoAppliesTo": [
         "::first-letter",
-- 
2.43.0


From 512b02d3ce5ccf8d99c79db51a9408232a417118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 18/58] fix: split the class list at any ASCII whitespace

As in HTML, classes may be separated by tabs and line breaks and by more
than one space. Tabs and newlines became part of a class name, and runs of
spaces produced empty names.
---
 merge.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index d3a37cb..8c20371 100644
--- a/merge.go
+++ b/merge.go
@@ -226,6 +226,13 @@ func propModifier(class string, rule cascadia.CssRule) string {
 	}
 }
 
+// splitClasses splits a class attribute into its classes, which are separated by ASCII whitespace.
+func splitClasses(s string) []string {
+	return strings.FieldsFunc(s, func(c rune) bool {
+		return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r'
+	})
+}
+
 // Merge resolves conflicting css class rules.
 // It takes a string of space-separated class names.
 // Returns a string of space-separated class names with the conflicting classes removed.
@@ -240,7 +247,7 @@ func (r *Merger) Merge(inClass string) string {
 			return val
 		}
 	}
-	split := strings.Split(strings.TrimSpace(inClass), " ")
+	split := splitClasses(inClass)
 	if len(split) < 2 {
 		return inClass
 	}
-- 
2.43.0


From 0b4e629e8acaf24f0295c3f5c7ae6b082b8e9ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 19/58] fix: keep classes whose rule declares nothing

Nothing can override them; they were dropped from every list.
---
 merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 8c20371..e36716e 100644
--- a/merge.go
+++ b/merge.go
@@ -264,7 +264,7 @@ func (r *Merger) Merge(inClass string) string {
 	importantPropsToCustomVars := make(map[string][]string)    // map of props to the custom vars that its !important declaration uses
 	for _, class := range split {
 		rule, ok := r.rules[class]
-		if !ok {
+		if !ok || len(rule.Declarations) == 0 {
 			// log.Println("rule not found for class:", class)
 			keepClasses = append(keepClasses, class)
 			continue
-- 
2.43.0


From f7852c36db1862eac8c376a2941181e8d98e6722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 20/58] fix: do not write to the memory of the reader passed to
 AddRules

A reader with a Bytes method, such as *bytes.Buffer, had a NUL byte written
behind its content, in memory that belongs to the caller.
---
 internal/cascadia/rules.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 301b719..2d42a3a 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -140,6 +140,11 @@ func normalizeWhitespace(s string) string {
 }
 
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
+	if r != nil {
+		// hide the concrete type of the reader: parse.NewInput would use the memory of a bytes.Buffer
+		// in place (and write behind its end) instead of reading from it
+		r = struct{ io.Reader }{r}
+	}
 	p := css.NewParser(parse.NewInput(r), inline)
 	rules := make([]CssRule, 0)
 	var err error
-- 
2.43.0


From 89ba6a9f6bd88e9ddeb6b14e671110481e2f5fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 21/58] fix: guard the cache against Clear running concurrently
 with Get and Set

Clear replaced the sync.Map while others may be using it, which is a data
race and can crash or lose the lock state of the map.
---
 cache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache.go b/cache.go
index 5c9f60c..539342f 100644
--- a/cache.go
+++ b/cache.go
@@ -7,7 +7,7 @@ import (
 // SimpleCache is a simple in-memory cache that uses a sync.Map to store key-value pairs.
 // It is safe for concurrent use, but it is grow-only.
 type SimpleCache struct {
-	mu    sync.Mutex
+	mu    sync.RWMutex // guards the replacement of items; sync.Map takes care of the rest
 	items sync.Map
 }
 
@@ -18,6 +18,8 @@ func NewCache() *SimpleCache {
 
 // Get returns the value for the given key, and a boolean indicating whether the key was found.
 func (c *SimpleCache) Get(key string) (string, bool) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	if value, ok := c.items.Load(key); ok {
 		return value.(string), true
 	}
@@ -26,6 +28,8 @@ func (c *SimpleCache) Get(key string) (string, bool) {
 
 // Set sets the value for the given key.
 func (c *SimpleCache) Set(key string, data string) {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 	c.items.Store(key, data)
 }
 
-- 
2.43.0


From dfab0323691d5a4a3ac5e1f4d9a4bb83bbe51b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 22/58] fix: make it safe to add rules while merging

Merge read the rule map without a lock while AddRules wrote to it (a data
race that can crash the program), saw half-added stylesheets, and could
store a result of the old rules after AddRules had cleared the cache.
Parse first, then change rules and cache under a lock that Merge shares.
---
 merge.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/merge.go b/merge.go
index e36716e..4c6c18c 100644
--- a/merge.go
+++ b/merge.go
@@ -23,7 +23,7 @@ type Cache interface {
 
 // Merger is a struct that resolves conflicting css rules.
 type Merger struct {
-	mu         sync.Mutex // mutex is only used when adding rules
+	mu         sync.RWMutex // guards rules, and keeps results of old rules out of the cache
 	rules      map[string]cascadia.CssRule
 	cache      Cache
 	properties map[string]props.Property
@@ -88,18 +88,18 @@ func walk(selector cascadia.Sel) []cascadia.Sel {
 // AddRules adds rules to the Merger from a reader.
 // It takes a reader and a boolean value indicating whether the rules are inline.
 // Returns an error if the rules could not be parsed.
-// If the cache is not nil, it is cleared.
+// If the cache is not nil, it is cleared when the rules have been parsed.
 // New rules with the same class will overwrite existing rules.
 func (r *Merger) AddRules(reader io.Reader, inline bool) error {
+	rules, err := cascadia.ExtractRules(reader, inline)
+	if err != nil {
+		return err
+	}
 	r.mu.Lock()
 	defer r.mu.Unlock()
 	if r.cache != nil {
 		r.cache.Clear()
 	}
-	rules, err := cascadia.ExtractRules(reader, inline)
-	if err != nil {
-		return err
-	}
 	for _, rule := range rules {
 		selectors := walk(rule.Selector)
 		for _, selector := range selectors {
@@ -252,6 +252,10 @@ func (r *Merger) Merge(inClass string) string {
 		return inClass
 	}
 
+	// hold the lock until the result is in the cache, so that AddRules can't clear the cache in between
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+
 	keepClasses := make([]string, 0, len(split))
 
 	// propsToClasses is a map of properties that are shared between classes
-- 
2.43.0


From d01acf665e2024098940de19a05e16f2286cf3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 23/58] fix: recognise !important in any case and spacing, but
 not inside a value

'! important' (in custom properties) and '!IMPORTANT' were missed, and a
string that merely contains the text counted.
---
 merge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 4c6c18c..13e6afb 100644
--- a/merge.go
+++ b/merge.go
@@ -150,8 +150,8 @@ func (r *Merger) expandProp(name string) []string {
 	return expanded
 }
 
-var importantRegex = regexp.MustCompile(`!important`)      // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`) // matches custom variables in a css declaration value
+var importantRegex = regexp.MustCompile(`(?i)!\s*important\s*$`) // matches !important in a css declaration value
+var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`)       // matches custom variables in a css declaration value
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-- 
2.43.0


From 086d5ab835017354e355afc4615e86bb77fd77d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:05 +0000
Subject: [PATCH 24/58] fix: keep the meaning of declaration values

Backslashes were removed from values and whitespace inside strings was
collapsed, so content: "\201C" became "201C". The parser already reduces
whitespace between tokens; custom property values, which it hands out as
raw text, are reduced token by token.
---
 internal/cascadia/rules.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 2d42a3a..bbb1352 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -135,8 +135,24 @@ foundEsc:
 	return buf.String()
 }
 
-func normalizeWhitespace(s string) string {
-	return strings.Join(strings.Fields(s), " ")
+// normalizeCustomValue replaces runs of whitespace and comments in the value of a custom property by a single space.
+// What looks like that inside a string is left alone.
+func normalizeCustomValue(b []byte) string {
+	vals := strings.Builder{}
+	space := false
+	l := css.NewLexer(parse.NewInputString(string(b)))
+	for tt, data := l.Next(); tt != css.ErrorToken; tt, data = l.Next() {
+		if tt == css.WhitespaceToken || tt == css.CommentToken {
+			space = true
+			continue
+		}
+		if space && vals.Len() > 0 {
+			vals.WriteByte(' ')
+		}
+		space = false
+		vals.Write(data)
+	}
+	return vals.String()
 }
 
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
@@ -239,9 +255,12 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 func buildDeclaration(p *css.Parser, data []byte) CssDeclaration {
 	vals := strings.Builder{}
 	for _, val := range p.Values() {
+		if val.TokenType == css.CustomPropertyValueToken {
+			vals.WriteString(normalizeCustomValue(val.Data))
+			continue
+		}
 		vals.Write(val.Data)
 	}
-	s := normalizeWhitespace(vals.String())
-	declaration := CssDeclaration{Property: string(data), Value: CssUnescape([]byte(s))}
+	declaration := CssDeclaration{Property: string(data), Value: vals.String()}
 	return declaration
 }
-- 
2.43.0


From b0b2934e1245df11806280d3035c9a0cc449fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 25/58] fix: recognise custom property names in var() however
 they are written

var( --x), VAR(--x) and names with escapes or non-ASCII letters were not
seen, and text in strings was, so that classes that set the property were
dropped or kept wrongly. Hexadecimal escapes are now decoded.
---
 internal/cascadia/rules.go | 19 ++++++++++++-------
 merge.go                   | 10 +++++++---
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index bbb1352..06e899d 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -123,14 +123,19 @@ func CssUnescape(b []byte) string {
 	return string(b)
 
 foundEsc:
-	inEsc := false
-	for ; i < len(b); i++ {
-		if b[i] == '\\' && !inEsc {
-			inEsc = true
-			continue
+	p := &parser{s: string(b), i: i}
+	for p.i < len(b) {
+		if b[p.i] == '\\' {
+			c, err := p.parseEscape()
+			if err == nil {
+				buf.WriteString(c)
+				continue
+			}
+			// not an escape sequence, just drop the backslash
+		} else {
+			buf.WriteByte(b[p.i])
 		}
-		buf.WriteByte(b[i])
-		inEsc = false
+		p.i++
 	}
 	return buf.String()
 }
diff --git a/merge.go b/merge.go
index 13e6afb..316ba1c 100644
--- a/merge.go
+++ b/merge.go
@@ -131,6 +131,9 @@ func (r *Merger) getAffectedProps(dec cascadia.CssDeclaration, propMods []string
 // expandProp returns the names of the individual properties that a property stands for.
 // The individual properties of a shorthand may be shorthands themselves.
 func (r *Merger) expandProp(name string) []string {
+	if strings.HasPrefix(name, "--") {
+		return []string{cascadia.CssUnescape([]byte(name))}
+	}
 	prop, ok := r.properties[name]
 	if !ok {
 		// Allowing these through, maybe they shouldn't be but
@@ -151,7 +154,8 @@ func (r *Merger) expandProp(name string) []string {
 }
 
 var importantRegex = regexp.MustCompile(`(?i)!\s*important\s*$`) // matches !important in a css declaration value
-var customVarRegex = regexp.MustCompile(`var\((--[\w-]+)`)       // matches custom variables in a css declaration value
+// matches custom variables in a css declaration value. Strings are matched too, without a submatch, to skip them
+var customVarRegex = regexp.MustCompile(`(?is)"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|(?:^|[^\w-])var\(\s*(--(?:[\w-]|[^\x00-\x7f]|\\[0-9a-f]{1,6}\s?|\\.)+)`)
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
@@ -160,10 +164,10 @@ func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	}
 	vars := make([]string, 0, len(matches))
 	for _, match := range matches {
-		if len(match) < 2 {
+		if len(match) < 2 || match[1] == "" {
 			continue
 		}
-		vars = append(vars, match[1])
+		vars = append(vars, cascadia.CssUnescape([]byte(match[1])))
 	}
 	return vars
 }
-- 
2.43.0


From 4d9600f229587974ebe2c608c9b7d6598aa8892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 26/58] fix: compare at-rule conditions regardless of optional
 whitespace

@media (width>=40rem) and @media (width >= 40rem) are the same condition.
---
 internal/cascadia/rules.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 06e899d..f56b3c2 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -99,12 +99,21 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 		return "", ""
 	}
 	ruleBuilder := strings.Builder{}
-	for _, val := range values {
+	for i, val := range values {
+		// whitespace only has a meaning between words
+		if val.TokenType == css.WhitespaceToken && (i == 0 || isSeparator(values[i-1]) || i+1 == len(values) || isSeparator(values[i+1])) {
+			continue
+		}
 		ruleBuilder.Write(val.Data)
 	}
 	return string(data), ruleBuilder.String()
 }
 
+// isSeparator returns true if whitespace next to the token in the prelude of an at-rule has no meaning.
+func isSeparator(t css.Token) bool {
+	return t.TokenType == css.FunctionToken || len(t.Data) == 1 && strings.Contains("()<>=/*,:", string(t.Data))
+}
+
 func CssUnescape(b []byte) string {
 
 	var buf bytes.Buffer
-- 
2.43.0


From 068446e03978860f4390b02c2a55faf227d37492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 27/58] fix: read the i flag after an unquoted attribute value

[data-x=a i] was read as [data-x=ai].
---
 internal/cascadia/rules.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index f56b3c2..c7a1b7f 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -85,7 +85,11 @@ type CssDeclaration struct {
 func getSelectors(prefix string, tokens []css.Token) (SelectorGroup, error) {
 	fullSelector := strings.Builder{}
 	fullSelector.WriteString(prefix)
-	for _, val := range tokens {
+	for i, val := range tokens {
+		if i > 0 && val.TokenType == css.IdentToken && tokens[i-1].TokenType == css.IdentToken {
+			// the parser drops whitespace in attribute selectors, even before the i flag
+			fullSelector.WriteByte(' ')
+		}
 		fullSelector.Write(val.Data)
 	}
 	casc, err := ParseGroupWithPseudoElements(fullSelector.String())
-- 
2.43.0


From 436f77f7be5a380f6898b2d424156b49a3f940e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:45 +0000
Subject: [PATCH 28/58] fix: print selectors so that they read back as the same
 selector

Names that start with a digit or contain control characters, tag names,
attribute names and languages with special characters, and strings with
quotes, backslashes or line breaks were printed unescaped, and :popover-open
as :popover, which does not parse.
---
 internal/cascadia/serialize.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 45186fe..0b9a77f 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -44,14 +44,32 @@ func init() {
 	for _, s := range ",!\"#$%&'()*+ -./:;<=>?@[\\]^`{|}~" {
 		pairs = append(pairs, string(s), "\\"+string(s))
 	}
+	for c := 0; c < 0x80; c++ {
+		if c < ' ' || c == 0x7f {
+			pairs = append(pairs, string(rune(c)), fmt.Sprintf("\\%x ", c))
+		}
+	}
 	specialCharReplacer = strings.NewReplacer(pairs...)
 }
 
 // espace special CSS char
 func escape(s string) string { return specialCharReplacer.Replace(s) }
 
+// escapeIdentifier escapes special CSS chars, and a digit at the start
+func escapeIdentifier(s string) string {
+	if s != "" && '0' <= s[0] && s[0] <= '9' {
+		return fmt.Sprintf("\\%x ", s[0]) + escape(s[1:])
+	}
+	return escape(s)
+}
+
+var stringReplacer = strings.NewReplacer(`"`, `\"`, `\`, `\\`, "\n", `\a `, "\r", `\d `, "\f", `\c `)
+
+// quote returns s as a CSS string
+func quote(s string) string { return `"` + stringReplacer.Replace(s) + `"` }
+
 func (c TagSelector) String() string {
-	return c.tag
+	return escapeIdentifier(c.tag)
 }
 
 func (c IdSelector) String() string {
@@ -59,7 +77,7 @@ func (c IdSelector) String() string {
 }
 
 func (c ClassSelector) String() string {
-	return "." + escape(c.Class)
+	return "." + escapeIdentifier(c.Class)
 }
 
 func (c AttrSelector) String() string {
@@ -67,7 +85,7 @@ func (c AttrSelector) String() string {
 	if c.operation == "#=" {
 		val = c.regexp.String()
 	} else if c.operation != "" {
-		val = fmt.Sprintf(`"%s"`, val)
+		val = quote(val)
 	}
 
 	ignoreCase := ""
@@ -76,7 +94,7 @@ func (c AttrSelector) String() string {
 		ignoreCase = " i"
 	}
 
-	return fmt.Sprintf(`[%s%s%s%s]`, c.key, c.operation, val, ignoreCase)
+	return fmt.Sprintf(`[%s%s%s%s]`, escapeIdentifier(c.key), c.operation, val, ignoreCase)
 }
 
 func (c IsPseudoClassSelector) String() string {
@@ -96,7 +114,7 @@ func (c ContainsPseudoClassSelector) String() string {
 	if c.own {
 		s += "Own"
 	}
-	return fmt.Sprintf(`:%s("%s")`, s, c.value)
+	return fmt.Sprintf(`:%s(%s)`, s, quote(c.value))
 }
 
 func (c RegexpPseudoClassSelector) String() string {
@@ -162,7 +180,7 @@ func (c LinkPseudoClassSelector) String() string {
 }
 
 func (c LangPseudoClassSelector) String() string {
-	return fmt.Sprintf(":lang(%s)", c.lang)
+	return fmt.Sprintf(":lang(%s)", escapeIdentifier(c.lang))
 }
 
 func (c EnabledPseudoClassSelector) String() string {
@@ -202,7 +220,7 @@ func (c ReadOnlyPseudoClassSelector) String() string {
 }
 
 func (c PopoverPseudoClassSelector) String() string {
-	return ":popover"
+	return ":popover-open"
 }
 
 func (c abstractPseudoClass) String() string {
-- 
2.43.0


From 2acac26a45a349ada5a413d7f9b08f36babe2d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 29/58] fix: match nothing with an empty value in [a^=""],
 [a$=""], [a*=""] and [a~=""]

as the Selectors specification demands.
---
 internal/cascadia/selector.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index d680818..d9d899d 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -291,6 +291,9 @@ func attributeNotEqualMatch(key, val string, n *html.Node, ignoreCase bool) bool
 
 // returns true if s is a whitespace-separated list that includes val.
 func matchInclude(val string, s string, ignoreCase bool) bool {
+	if val == "" {
+		return false
+	}
 	for s != "" {
 		i := strings.IndexAny(s, " \t\r\n\f")
 		if i == -1 {
@@ -326,7 +329,7 @@ func attributeDashMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
@@ -341,7 +344,7 @@ func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
@@ -356,7 +359,7 @@ func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 func attributeSubstringMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 	return matchAttribute(n, key,
 		func(s string) bool {
-			if strings.TrimSpace(s) == "" {
+			if val == "" || strings.TrimSpace(s) == "" {
 				return false
 			}
 			if ignoreCase {
-- 
2.43.0


From 7fd13ef8264d8972c16a3a35eb302cddb5a91458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:41 +0000
Subject: [PATCH 30/58] fix: compare attribute values with the i flag ASCII
 case-insensitively

The flag does not extend to other letters: the Kelvin sign is not a k.
---
 internal/cascadia/selector.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index d9d899d..b5e1259 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -256,7 +256,7 @@ func (t AttrSelector) Match(n *html.Node) bool {
 // the real attribute is the attribute value found in the code parsed
 func matchInsensitiveValue(userAttr string, realAttr string, ignoreCase bool) bool {
 	if ignoreCase {
-		return strings.EqualFold(userAttr, realAttr)
+		return toLowerASCII(userAttr) == toLowerASCII(realAttr)
 	}
 	return userAttr == realAttr
 
@@ -333,7 +333,7 @@ func attributePrefixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 				return false
 			}
 			if ignoreCase {
-				return strings.HasPrefix(strings.ToLower(s), strings.ToLower(val))
+				return strings.HasPrefix(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.HasPrefix(s, val)
 		})
@@ -348,7 +348,7 @@ func attributeSuffixMatch(key, val string, n *html.Node, ignoreCase bool) bool {
 				return false
 			}
 			if ignoreCase {
-				return strings.HasSuffix(strings.ToLower(s), strings.ToLower(val))
+				return strings.HasSuffix(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.HasSuffix(s, val)
 		})
@@ -363,7 +363,7 @@ func attributeSubstringMatch(key, val string, n *html.Node, ignoreCase bool) boo
 				return false
 			}
 			if ignoreCase {
-				return strings.Contains(strings.ToLower(s), strings.ToLower(val))
+				return strings.Contains(toLowerASCII(s), toLowerASCII(val))
 			}
 			return strings.Contains(s, val)
 		})
-- 
2.43.0


From c60b8882461c67f3e8d34fa1642a0f285d2e55cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 31/58] fix: match only elements with :contains and :matches

Text nodes and the document itself were reported as matches.
---
 internal/cascadia/pseudo_classes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 78b9427..42f207e 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -192,6 +192,9 @@ type ContainsPseudoClassSelector struct {
 }
 
 func (s ContainsPseudoClassSelector) Match(n *html.Node) bool {
+	if n.Type != html.ElementNode {
+		return false
+	}
 	var text string
 	if s.own {
 		// matches nodes that directly contain the given text
@@ -210,6 +213,9 @@ type RegexpPseudoClassSelector struct {
 }
 
 func (s RegexpPseudoClassSelector) Match(n *html.Node) bool {
+	if n.Type != html.ElementNode {
+		return false
+	}
 	var text string
 	if s.own {
 		// matches nodes whose text directly matches the specified regular expression
-- 
2.43.0


From eae9ea19f74afd8f05a0767a5eec5ccee1a6a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 32/58] fix: let the closest lang attribute decide for :lang

An element with its own language also matched the languages of all its
ancestors, the comparison was case-sensitive, and text nodes matched.
---
 internal/cascadia/pseudo_classes.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 42f207e..7a98a41 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -476,11 +476,15 @@ type LangPseudoClassSelector struct {
 }
 
 func (s LangPseudoClassSelector) Match(n *html.Node) bool {
+	if n.Type != html.ElementNode {
+		return false
+	}
 	own := matchAttribute(n, "lang", func(val string) bool {
+		val = strings.ToLower(val)
 		return val == s.lang || strings.HasPrefix(val, s.lang+"-")
 	})
-	if n.Parent == nil {
-		return own
+	if n.Parent == nil || hasAttr(n, "lang") {
+		return own // the closest lang attribute decides
 	}
 	return own || s.Match(n.Parent)
 }
-- 
2.43.0


From fae8f87f65f3764cbb6d4b7e6432371f85af23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:09 +0000
Subject: [PATCH 33/58] fix: disable options and fieldsets as HTML says

An option is disabled by its option group, not by a fieldset around the
select, and a fieldset is disabled by a fieldset around it.
---
 internal/cascadia/pseudo_classes.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 7a98a41..b1e3a2d 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -500,9 +500,11 @@ func (s EnabledPseudoClassSelector) Match(n *html.Node) bool {
 	switch n.DataAtom {
 	case atom.A, atom.Area, atom.Link:
 		return hasAttr(n, "href")
-	case atom.Optgroup, atom.Menuitem, atom.Fieldset:
+	case atom.Optgroup, atom.Menuitem:
 		return !hasAttr(n, "disabled")
-	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Option:
+	case atom.Option:
+		return !hasAttr(n, "disabled") && !inDisabledOptgroup(n)
+	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Fieldset:
 		return !hasAttr(n, "disabled") && !inDisabledFieldset(n)
 	}
 	return false
@@ -517,14 +519,21 @@ func (s DisabledPseudoClassSelector) Match(n *html.Node) bool {
 		return false
 	}
 	switch n.DataAtom {
-	case atom.Optgroup, atom.Menuitem, atom.Fieldset:
+	case atom.Optgroup, atom.Menuitem:
 		return hasAttr(n, "disabled")
-	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Option:
+	case atom.Option:
+		return hasAttr(n, "disabled") || inDisabledOptgroup(n)
+	case atom.Button, atom.Input, atom.Select, atom.Textarea, atom.Fieldset:
 		return hasAttr(n, "disabled") || inDisabledFieldset(n)
 	}
 	return false
 }
 
+// inDisabledOptgroup returns whether an option is disabled by its option group.
+func inDisabledOptgroup(n *html.Node) bool {
+	return n.Parent != nil && n.Parent.DataAtom == atom.Optgroup && hasAttr(n.Parent, "disabled")
+}
+
 func hasLegendInPreviousSiblings(n *html.Node) bool {
 	for s := n.PrevSibling; s != nil; s = s.PrevSibling {
 		if s.DataAtom == atom.Legend {
-- 
2.43.0


From 5f47aa98e01aff2e456cb9e159fa76e3acc1e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 34/58] fix: accept the universal selector *|* at the end of a
 selector

---
 internal/cascadia/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 4591ef9..ae46efe 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -820,7 +820,7 @@ func (p *parser) parseSimpleSelectorSequence() (Sel, error) {
 	case '*':
 		// It's the universal selector. Just skip over it, since it doesn't affect the meaning.
 		p.i++
-		if p.i+2 < len(p.s) && p.s[p.i:p.i+2] == "|*" { // other version of universal selector
+		if p.i+2 <= len(p.s) && p.s[p.i:p.i+2] == "|*" { // other version of universal selector
 			p.i += 2
 		}
 	case '#', '.', '[', ':':
-- 
2.43.0


From 32dec65482b331d651302752a26ea8c0ac7cefae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 35/58] fix: reject selectors nested so deeply that they
 exhaust the stack

A stylesheet of 2.5 MB with one selector of 500000 nested :is( crashed the
program with an unrecoverable stack overflow.
---
 internal/cascadia/parser.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index ae46efe..302c755 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -43,6 +43,8 @@ type parser struct {
 	s string // the source text
 	i int    // the current position
 
+	depth int // the number of enclosing parentheses
+
 	// if `false`, parsing a pseudo-element
 	// returns an error.
 	acceptPseudoElements bool
@@ -470,6 +472,14 @@ var (
 	errExpectedParenthesis        = errors.New("expected '(' but didn't find it")
 	errExpectedClosingParenthesis = errors.New("expected ')' but didn't find it")
 	errUnmatchedParenthesis       = errors.New("unmatched '('")
+	errTooComplex                 = errors.New("selector is too complex")
+)
+
+// Limits on selectors, which are processed recursively: without them, hostile
+// input could exhaust the stack, which can't be recovered from.
+const (
+	maxDepth       = 1000 // nested parentheses
+	maxCombinators = 5000 // combinators in one selector
 )
 
 // parsePseudoclassSelector parses a pseudoclass selector like :not(p) or a pseudo-element
@@ -515,7 +525,12 @@ func (p *parser) parsePseudoclassSelector() (out Sel, pseudoElement string, err
 		if !p.consumeParenthesis() {
 			return out, "", errExpectedParenthesis
 		}
+		if p.depth >= maxDepth {
+			return out, "", errTooComplex
+		}
+		p.depth++
 		sel, parseErr := p.parseSelectorGroup()
+		p.depth--
 		if parseErr != nil {
 			return out, "", parseErr
 		}
@@ -890,7 +905,7 @@ func (p *parser) parseSelector() (Sel, error) {
 		return nil, err
 	}
 
-	for {
+	for n := 0; ; n++ {
 		var (
 			combinator byte
 			c          Sel
@@ -916,6 +931,9 @@ func (p *parser) parseSelector() (Sel, error) {
 			return result, nil
 		}
 
+		if n >= maxCombinators {
+			return nil, errTooComplex
+		}
 		c, err = p.parseSimpleSelectorSequence()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From b034c729d97300f1315af088c6ed108eb1aef4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 36/58] fix: look only below the element for all parts of a
 selector in :has

div:has(.a .b) also matched when .a was the div or one of its ancestors.
---
 internal/cascadia/pseudo_classes.go | 38 ++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index b1e3a2d..9fc7a07 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -136,7 +136,12 @@ func (s RelativePseudoClassSelector) Match(n *html.Node) bool {
 		return !s.match.Match(n)
 	case "has":
 		//  matches elements with any descendant that matches a.
-		return hasDescendantMatch(n, s.match)
+		for _, sel := range s.match {
+			if hasDescendantMatch(n, scopedMatcher{n, sel}) {
+				return true
+			}
+		}
+		return false
 	case "haschild":
 		// matches elements with a child that matches a.
 		return hasChildMatch(n, s.match)
@@ -145,6 +150,37 @@ func (s RelativePseudoClassSelector) Match(n *html.Node) bool {
 	}
 }
 
+// scopedMatcher matches what sel matches if all the elements that
+// sel's parts stand for are descendants of scope.
+type scopedMatcher struct {
+	scope *html.Node
+	sel   Sel
+}
+
+func (s scopedMatcher) Match(n *html.Node) bool {
+	p := n.Parent
+	for p != s.scope {
+		if p == nil {
+			return false
+		}
+		p = p.Parent
+	}
+	c, ok := s.sel.(CombinedSelector)
+	if !ok {
+		return s.sel.Match(n)
+	}
+	first := scopedMatcher{s.scope, c.first}
+	switch c.combinator {
+	case ' ':
+		return descendantMatch(first, c.second, n)
+	case '>':
+		return childMatch(first, c.second, n)
+	case '+', '~':
+		return siblingMatch(first, c.second, c.combinator == '+', n)
+	}
+	return false
+}
+
 // hasChildMatch returns whether n has any child that matches a.
 func hasChildMatch(n *html.Node, a Matcher) bool {
 	for c := n.FirstChild; c != nil; c = c.NextSibling {
-- 
2.43.0


From 31408187fe396f9d6eff4560592fb005a6c8b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 37/58] fix: accept identifiers that start with two hyphens
 whatever follows

.--1 and .-- are valid class selectors.
---
 internal/cascadia/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 302c755..f7204f9 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -136,11 +136,15 @@ func (p *parser) parseIdentifier() (result string, err error) {
 		numPrefix++
 	}
 
+	if numPrefix >= 2 && (len(p.s) <= p.i || !(nameChar(p.s[p.i]) || p.s[p.i] == '\\')) {
+		return strings.Repeat(string(prefix), numPrefix), nil // two hyphens are an identifier
+	}
+
 	if len(p.s) <= p.i {
 		return "", errors.New("expected identifier, found EOF instead")
 	}
 
-	if c := p.s[p.i]; !(nameStart(c) || c == '\\') {
+	if c := p.s[p.i]; !(nameStart(c) || c == '\\' || numPrefix >= 2) {
 		return "", fmt.Errorf("expected identifier, found %c instead", c)
 	}
 
-- 
2.43.0


From d110dfe0b845a8055ac883af78a19c1c875657b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 38/58] fix: keep custom property names and circumstances apart
 in the merge keys

---
 merge.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 316ba1c..6f41f49 100644
--- a/merge.go
+++ b/merge.go
@@ -284,7 +284,8 @@ func (r *Merger) Merge(inClass string) string {
 
 			for _, affected := range r.getAffectedProps(dec, propMods) {
 
-				name, prop := affected.name, affected.name+affected.modifier
+				// the separator can't be part of a name (the name of a custom property can contain anything else)
+				name, prop := affected.name, affected.name+"\x00"+affected.modifier
 
 				// if the property has a custom var, add it to the propsToCustomVars map
 				customVars := getCustomVarsInDec(dec)
-- 
2.43.0


From 93045c883e80011e1909d0e3d455f7900402f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 39/58] fix: an escaped NUL stands for the replacement
 character

---
 internal/cascadia/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index f7204f9..712ad37 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -80,6 +80,9 @@ func (p *parser) parseEscape() (result string, err error) {
 			}
 		}
 		p.i = i
+		if v == 0 {
+			v = '\uFFFD' // like all other escapes that don't stand for a character
+		}
 		return string(rune(v)), nil
 	}
 
-- 
2.43.0


From 49410c27e378bfe5be74177459c8723b217b2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 40/58] fix: a hexadecimal escape may end with a CRLF

---
 internal/cascadia/rules.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index c7a1b7f..fe960ab 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -174,12 +174,19 @@ func normalizeCustomValue(b []byte) string {
 }
 
 func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
+	var data []byte
 	if r != nil {
-		// hide the concrete type of the reader: parse.NewInput would use the memory of a bytes.Buffer
+		var err error
+		// don't let parse.NewInput read: it would use the memory of a bytes.Buffer
 		// in place (and write behind its end) instead of reading from it
-		r = struct{ io.Reader }{r}
+		data, err = io.ReadAll(r)
+		if err != nil {
+			return nil, fmt.Errorf("encountered error reading CSS: %w", err)
+		}
+		// a line ending is a single character in CSS, which matters at the end of a hexadecimal escape
+		data = bytes.ReplaceAll(data, []byte("\r\n"), []byte("\n"))
 	}
-	p := css.NewParser(parse.NewInput(r), inline)
+	p := css.NewParser(parse.NewInputBytes(data), inline)
 	rules := make([]CssRule, 0)
 	var err error
 	var currentRule CssRule
-- 
2.43.0


From 613f80e04819591fbb51af8f516512d733adc67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 41/58] fix: don't let the work grow with the square of a
 class's repetitions

Only the last occurrence of a class in the list counts.
---
 merge.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/merge.go b/merge.go
index 6f41f49..82cc018 100644
--- a/merge.go
+++ b/merge.go
@@ -270,7 +270,15 @@ func (r *Merger) Merge(inClass string) string {
 	customVarNames := make(map[string]string, len(split))      // map of custom vars (with condition) to their names
 	propsToCustomVars := make(map[string][]string, len(split)) // map of props to the custom vars that it uses
 	importantPropsToCustomVars := make(map[string][]string)    // map of props to the custom vars that its !important declaration uses
-	for _, class := range split {
+
+	lastIndex := make(map[string]int, len(split))
+	for i, class := range split {
+		lastIndex[class] = i
+	}
+	for i, class := range split {
+		if lastIndex[class] != i {
+			continue // only the last occurrence of a class counts
+		}
 		rule, ok := r.rules[class]
 		if !ok || len(rule.Declarations) == 0 {
 			// log.Println("rule not found for class:", class)
-- 
2.43.0


From 8edb2ed47296ad81468b77bd15e73673c36c2241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:36 +0000
Subject: [PATCH 42/58] fix: :empty counts only document white space as empty
 text

---
 internal/cascadia/pseudo_classes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 9fc7a07..0b66b15 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -467,7 +467,7 @@ func (s EmptyElementPseudoClassSelector) Match(n *html.Node) bool {
 		case html.ElementNode:
 			return false
 		case html.TextNode:
-			if strings.TrimSpace(nodeText(c)) == "" {
+			if strings.Trim(nodeText(c), " \t\r\n\f") == "" {
 				continue
 			} else {
 				return false
-- 
2.43.0


From aca7b05c13eba9a6406a4526d800a589dd63f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 43/58] fix: a backslash before a raw NUL stands for U+FFFD,
 too

---
 internal/cascadia/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 712ad37..d442465 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -88,6 +88,9 @@ func (p *parser) parseEscape() (result string, err error) {
 
 	// Return the literal character after the backslash.
 	result = p.s[start : start+1]
+	if c == 0 {
+		result = "\uFFFD"
+	}
 	p.i += 2
 	return result, nil
 }
-- 
2.43.0


From fba23ac9dd5cfb501d369666b6860358edd79bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 44/58] fix: reject vendor pseudo-elements where
 pseudo-elements are not supported

---
 internal/cascadia/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index d442465..0682058 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -529,6 +529,9 @@ func (p *parser) parsePseudoclassSelector() (out Sel, pseudoElement string, err
 		return out, "", fmt.Errorf("unknown pseudoelement :%s", name)
 		// "fullscreen", "modal", "picture-in-picture", "autofill"
 	}
+	if mustBePseudoElement && !p.acceptPseudoElements {
+		return out, "", fmt.Errorf("pseudo-element %s found, but pseudo-elements support is disabled", name)
+	}
 
 	switch name {
 	case "not", "has", "haschild", "is", "where": // TL ADDED 'is' not sure if this is the correct place for it
-- 
2.43.0


From 99e24d6c15eb27a0de9134b9da471ff8702cbe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 45/58] fix: count and print vendor pseudo-elements as
 pseudo-elements

---
 internal/cascadia/parser.go         | 8 ++++----
 internal/cascadia/pseudo_classes.go | 6 +++++-
 internal/cascadia/serialize.go      | 3 +++
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 0682058..24151c3 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -638,13 +638,13 @@ func (p *parser) parsePseudoclassSelector() (out Sel, pseudoElement string, err
 	case "link":
 		out = LinkPseudoClassSelector{}
 	case "moz-placeholder":
-		out = abstractPseudoClass{name: name}
+		out = abstractPseudoClass{name: name, element: mustBePseudoElement}
 	case `-moz-focusring`, `-moz-placeholder`, "focus-within", "focus-visible", "fullscreen", "modal", "picture-in-picture", "autofill":
-		out = abstractPseudoClass{name: name}
+		out = abstractPseudoClass{name: name, element: mustBePseudoElement}
 	case "host", "-moz-ui-invalid", "-webkit-outer-spin-button", "-webkit-search-decoration", "-webkit-file-upload-button":
-		out = abstractPseudoClass{name: name}
+		out = abstractPseudoClass{name: name, element: mustBePseudoElement}
 	case "-webkit-scrollbar", "-webkit-scrollbar-button", "-webkit-scrollbar-thumb", "-webkit-scrollbar-track", "-moz-read-only":
-		out = abstractPseudoClass{name: name}
+		out = abstractPseudoClass{name: name, element: mustBePseudoElement}
 
 	case "lang":
 		if !p.consumeParenthesis() {
diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 0b66b15..23c73d9 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -43,7 +43,8 @@ import (
 // which share the implementation of PseudoElement() and Specificity()
 
 type abstractPseudoClass struct {
-	name string
+	name    string
+	element bool // whether it is a pseudo-element
 }
 
 func (s abstractPseudoClass) Match(n *html.Node) bool {
@@ -51,6 +52,9 @@ func (s abstractPseudoClass) Match(n *html.Node) bool {
 }
 
 func (s abstractPseudoClass) Specificity() Specificity {
+	if s.element {
+		return Specificity{0, 0, 1}
+	}
 	return Specificity{0, 1, 0}
 }
 
diff --git a/internal/cascadia/serialize.go b/internal/cascadia/serialize.go
index 0b9a77f..ca14e67 100644
--- a/internal/cascadia/serialize.go
+++ b/internal/cascadia/serialize.go
@@ -224,6 +224,9 @@ func (c PopoverPseudoClassSelector) String() string {
 }
 
 func (c abstractPseudoClass) String() string {
+	if c.element {
+		return fmt.Sprintf("::%s", c.name)
+	}
 	return fmt.Sprintf(":%s", c.name)
 }
 
-- 
2.43.0


From a77099a9a0a6aed2eec0b280f9a0cf4a1737a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 46/58] fix: keep the flag of an unquoted attribute value apart
 in selector lists

---
 internal/cascadia/rules.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index fe960ab..2233091 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -85,15 +85,20 @@ type CssDeclaration struct {
 func getSelectors(prefix string, tokens []css.Token) (SelectorGroup, error) {
 	fullSelector := strings.Builder{}
 	fullSelector.WriteString(prefix)
+	writeSelector(&fullSelector, tokens)
+	casc, err := ParseGroupWithPseudoElements(fullSelector.String())
+	return casc, err
+}
+
+// writeSelector writes the text of the tokens of a selector.
+func writeSelector(w *strings.Builder, tokens []css.Token) {
 	for i, val := range tokens {
 		if i > 0 && val.TokenType == css.IdentToken && tokens[i-1].TokenType == css.IdentToken {
 			// the parser drops whitespace in attribute selectors, even before the i flag
-			fullSelector.WriteByte(' ')
+			w.WriteByte(' ')
 		}
-		fullSelector.Write(val.Data)
+		w.Write(val.Data)
 	}
-	casc, err := ParseGroupWithPseudoElements(fullSelector.String())
-	return casc, err
 }
 
 // parses the name of an at-rule and its values if it's a media query
@@ -243,9 +248,7 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 			}
 		case css.QualifiedRuleGrammar:
 			// the parser splits the selector at every comma, even inside parentheses
-			for _, val := range p.Values() {
-				selectorPrefix.Write(val.Data)
-			}
+			writeSelector(&selectorPrefix, p.Values())
 			selectorPrefix.WriteByte(',')
 		case css.BeginRulesetGrammar:
 			currentRule = CssRule{}
-- 
2.43.0


From 5e1522a8d668f54292cecc24eac803f48974c602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 47/58] fix: keep words apart that a comment separates in the
 condition of an at-rule

---
 internal/cascadia/rules.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index 2233091..b1bb2ae 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -113,11 +113,24 @@ func parseAtRuleName(data []byte, values []css.Token) (string, string) {
 		if val.TokenType == css.WhitespaceToken && (i == 0 || isSeparator(values[i-1]) || i+1 == len(values) || isSeparator(values[i+1])) {
 			continue
 		}
+		if i > 0 && isWord(values[i-1]) && (isWord(val) || val.TokenType == css.FunctionToken) {
+			// the words were separated by a comment, which the parser drops
+			ruleBuilder.WriteByte(' ')
+		}
 		ruleBuilder.Write(val.Data)
 	}
 	return string(data), ruleBuilder.String()
 }
 
+// isWord returns true if the token needs a separator before another word.
+func isWord(t css.Token) bool {
+	switch t.TokenType {
+	case css.IdentToken, css.NumberToken, css.DimensionToken, css.PercentageToken:
+		return true
+	}
+	return false
+}
+
 // isSeparator returns true if whitespace next to the token in the prelude of an at-rule has no meaning.
 func isSeparator(t css.Token) bool {
 	return t.TokenType == css.FunctionToken || len(t.Data) == 1 && strings.Contains("()<>=/*,:", string(t.Data))
-- 
2.43.0


From 5071cd92c16d32b13cb93bce5338928571d16d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 48/58] fix: ignore a byte order mark at the start of a
 stylesheet

---
 internal/cascadia/rules.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/cascadia/rules.go b/internal/cascadia/rules.go
index b1bb2ae..34ecdb4 100644
--- a/internal/cascadia/rules.go
+++ b/internal/cascadia/rules.go
@@ -201,6 +201,8 @@ func ExtractRules(r io.Reader, inline bool) ([]CssRule, error) {
 		if err != nil {
 			return nil, fmt.Errorf("encountered error reading CSS: %w", err)
 		}
+		// a byte order mark at the start is not part of the text
+		data = bytes.TrimPrefix(data, []byte("\xef\xbb\xbf"))
 		// a line ending is a single character in CSS, which matters at the end of a hexadecimal escape
 		data = bytes.ReplaceAll(data, []byte("\r\n"), []byte("\n"))
 	}
-- 
2.43.0


From ce202cc9309f974ebdf78d3beaeacdbf5dcbd1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 49/58] fix: accept an empty regular expression at the end of a
 selector as well

---
 internal/cascadia/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index 24151c3..ace97fc 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -261,7 +261,7 @@ loop:
 // unmatched closing ')' or ']' which is not consumed
 func (p *parser) parseRegex() (rx *regexp.Regexp, err error) {
 	i := p.i
-	if len(p.s) < i+2 {
+	if len(p.s) <= i {
 		return nil, errors.New("expected regular expression, found EOF instead")
 	}
 
-- 
2.43.0


From ec41edfcf7459d6114f1cf96b3743d2a072e2725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 50/58] fix: see var() right after a string, and functions
 whose names only end in var

---
 merge.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 82cc018..dbee091 100644
--- a/merge.go
+++ b/merge.go
@@ -154,8 +154,10 @@ func (r *Merger) expandProp(name string) []string {
 }
 
 var importantRegex = regexp.MustCompile(`(?i)!\s*important\s*$`) // matches !important in a css declaration value
-// matches custom variables in a css declaration value. Strings are matched too, without a submatch, to skip them
-var customVarRegex = regexp.MustCompile(`(?is)"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|(?:^|[^\w-])var\(\s*(--(?:[\w-]|[^\x00-\x7f]|\\[0-9a-f]{1,6}\s?|\\.)+)`)
+const nameChar = `(?:[\w-]|[^\x00-\x7f]|\\[0-9a-f]{1,6}\s?|\\.)` // matches a character of a css name
+// matches custom variables in a css declaration value.
+// Strings, escapes and functions whose name only ends in var are matched too, without a submatch, to skip them
+var customVarRegex = regexp.MustCompile(`(?is)"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|` + nameChar + `+var\(|\\.|var\(\s*(--` + nameChar + `+)`)
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-- 
2.43.0


From d837120d5f096f32e2c788c9fbcb24cc2b9c3b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:31 +0000
Subject: [PATCH 51/58] fix: a name that ends in an escaped "!" and important
 is not !important

---
 merge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index dbee091..7902f8e 100644
--- a/merge.go
+++ b/merge.go
@@ -153,8 +153,8 @@ func (r *Merger) expandProp(name string) []string {
 	return expanded
 }
 
-var importantRegex = regexp.MustCompile(`(?i)!\s*important\s*$`) // matches !important in a css declaration value
-const nameChar = `(?:[\w-]|[^\x00-\x7f]|\\[0-9a-f]{1,6}\s?|\\.)` // matches a character of a css name
+var importantRegex = regexp.MustCompile(`(?i)(?:^|[^\\])(?:\\\\)*!\s*important\s*$`) // matches !important in a css declaration value
+const nameChar = `(?:[\w-]|[^\x00-\x7f]|\\[0-9a-f]{1,6}\s?|\\.)`                     // matches a character of a css name
 // matches custom variables in a css declaration value.
 // Strings, escapes and functions whose name only ends in var are matched too, without a submatch, to skip them
 var customVarRegex = regexp.MustCompile(`(?is)"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|` + nameChar + `+var\(|\\.|var\(\s*(--` + nameChar + `+)`)
-- 
2.43.0


From f3f30eb300e236e8e630cb64d9bbc632b790d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 52/58] fix: names of SVG and MathML elements and their
 attributes are case-sensitive, and attributes in a namespace are not those
 without

---
 internal/cascadia/parser.go   |  3 +--
 internal/cascadia/selector.go | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/internal/cascadia/parser.go b/internal/cascadia/parser.go
index ace97fc..ad9f35f 100644
--- a/internal/cascadia/parser.go
+++ b/internal/cascadia/parser.go
@@ -350,7 +350,7 @@ func (p *parser) parseTypeSelector() (result TagSelector, err error) {
 	if err != nil {
 		return
 	}
-	return TagSelector{tag: toLowerASCII(tag)}, nil
+	return TagSelector{tag: tag}, nil
 }
 
 // parseIDSelector parses a selector that matches by id attribute.
@@ -404,7 +404,6 @@ func (p *parser) parseAttributeSelector() (AttrSelector, error) {
 	if err != nil {
 		return AttrSelector{}, err
 	}
-	key = toLowerASCII(key)
 
 	p.skipWhitespace()
 	if p.i >= len(p.s) {
diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index b5e1259..fc3dd6c 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -164,12 +164,12 @@ func Filter(nodes []*html.Node, m Matcher) (result []*html.Node) {
 }
 
 type TagSelector struct {
-	tag string
+	tag string // as written
 }
 
 // Matches elements with a given tag name.
 func (t TagSelector) Match(n *html.Node) bool {
-	return n.Type == html.ElementNode && n.Data == t.tag
+	return n.Type == html.ElementNode && n.Data == nameFor(n, t.tag)
 }
 
 func (c TagSelector) Specificity() Specificity {
@@ -219,7 +219,7 @@ func (c IdSelector) PseudoElement() string {
 }
 
 type AttrSelector struct {
-	key, val, operation string
+	key, val, operation string // key as written
 	regexp              *regexp.Regexp
 	insensitive         bool
 }
@@ -262,13 +262,23 @@ func matchInsensitiveValue(userAttr string, realAttr string, ignoreCase bool) bo
 
 }
 
+// nameFor returns the name that a type or attribute selector written as name stands for at n:
+// HTML elements and their attributes have lower case names, but those of SVG and MathML are case-sensitive.
+func nameFor(n *html.Node, name string) string {
+	if n.Namespace == "" {
+		return toLowerASCII(name)
+	}
+	return name
+}
+
 // matches elements where the attribute named key satisfies the function f.
 func matchAttribute(n *html.Node, key string, f func(string) bool) bool {
 	if n.Type != html.ElementNode {
 		return false
 	}
+	key = nameFor(n, key)
 	for _, a := range n.Attr {
-		if a.Key == key && f(a.Val) {
+		if a.Key == key && a.Namespace == "" && f(a.Val) {
 			return true
 		}
 	}
@@ -281,8 +291,9 @@ func attributeNotEqualMatch(key, val string, n *html.Node, ignoreCase bool) bool
 	if n.Type != html.ElementNode {
 		return false
 	}
+	key = nameFor(n, key)
 	for _, a := range n.Attr {
-		if a.Key == key && matchInsensitiveValue(a.Val, val, ignoreCase) {
+		if a.Key == key && a.Namespace == "" && matchInsensitiveValue(a.Val, val, ignoreCase) {
 			return false
 		}
 	}
-- 
2.43.0


From 7e47d6acb402f288ae523f0987efb26517efa334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 53/58] fix: form controls, legends and groups are HTML
 elements, and types include the namespace

---
 internal/cascadia/pseudo_classes.go | 37 +++++++++++++++++++----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 23c73d9..9d7e7a3 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -331,7 +331,7 @@ func nthChildMatch(a, b int, last, ofType bool, n *html.Node) bool {
 	i := -1
 	count := 0
 	for c := parent.FirstChild; c != nil; c = c.NextSibling {
-		if (c.Type != html.ElementNode) || (ofType && c.Data != n.Data) {
+		if (c.Type != html.ElementNode) || (ofType && !sameType(c, n)) {
 			continue
 		}
 		count++
@@ -374,7 +374,7 @@ func simpleNthChildMatch(b int, ofType bool, n *html.Node) bool {
 
 	count := 0
 	for c := parent.FirstChild; c != nil; c = c.NextSibling {
-		if c.Type != html.ElementNode || (ofType && c.Data != n.Data) {
+		if c.Type != html.ElementNode || (ofType && !sameType(c, n)) {
 			continue
 		}
 		count++
@@ -402,7 +402,7 @@ func simpleNthLastChildMatch(b int, ofType bool, n *html.Node) bool {
 
 	count := 0
 	for c := parent.LastChild; c != nil; c = c.PrevSibling {
-		if c.Type != html.ElementNode || (ofType && c.Data != n.Data) {
+		if c.Type != html.ElementNode || (ofType && !sameType(c, n)) {
 			continue
 		}
 		count++
@@ -435,7 +435,7 @@ func (s OnlyChildPseudoClassSelector) Match(n *html.Node) bool {
 
 	count := 0
 	for c := parent.FirstChild; c != nil; c = c.NextSibling {
-		if (c.Type != html.ElementNode) || (s.ofType && c.Data != n.Data) {
+		if (c.Type != html.ElementNode) || (s.ofType && !sameType(c, n)) {
 			continue
 		}
 		count++
@@ -453,7 +453,7 @@ type InputPseudoClassSelector struct {
 
 // Matches input, select, textarea and button elements.
 func (s InputPseudoClassSelector) Match(n *html.Node) bool {
-	return n.Type == html.ElementNode && (n.Data == "input" || n.Data == "select" || n.Data == "textarea" || n.Data == "button")
+	return n.Type == html.ElementNode && n.Namespace == "" && (n.Data == "input" || n.Data == "select" || n.Data == "textarea" || n.Data == "button")
 }
 
 type EmptyElementPseudoClassSelector struct {
@@ -497,6 +497,19 @@ func (s RootPseudoClassSelector) Match(n *html.Node) bool {
 	return n.Parent.Type == html.DocumentNode
 }
 
+// htmlAtom returns the atom of the name of an HTML element, and 0 for an element of SVG or MathML.
+func htmlAtom(n *html.Node) atom.Atom {
+	if n.Namespace != "" {
+		return 0
+	}
+	return n.DataAtom
+}
+
+// sameType returns whether two elements are of the same type.
+func sameType(a, b *html.Node) bool {
+	return a.Data == b.Data && a.Namespace == b.Namespace
+}
+
 func hasAttr(n *html.Node, attr string) bool {
 	return matchAttribute(n, attr, func(string) bool { return true })
 }
@@ -537,7 +550,7 @@ func (s EnabledPseudoClassSelector) Match(n *html.Node) bool {
 	if n.Type != html.ElementNode {
 		return false
 	}
-	switch n.DataAtom {
+	switch htmlAtom(n) {
 	case atom.A, atom.Area, atom.Link:
 		return hasAttr(n, "href")
 	case atom.Optgroup, atom.Menuitem:
@@ -558,7 +571,7 @@ func (s DisabledPseudoClassSelector) Match(n *html.Node) bool {
 	if n.Type != html.ElementNode {
 		return false
 	}
-	switch n.DataAtom {
+	switch htmlAtom(n) {
 	case atom.Optgroup, atom.Menuitem:
 		return hasAttr(n, "disabled")
 	case atom.Option:
@@ -571,12 +584,12 @@ func (s DisabledPseudoClassSelector) Match(n *html.Node) bool {
 
 // inDisabledOptgroup returns whether an option is disabled by its option group.
 func inDisabledOptgroup(n *html.Node) bool {
-	return n.Parent != nil && n.Parent.DataAtom == atom.Optgroup && hasAttr(n.Parent, "disabled")
+	return n.Parent != nil && htmlAtom(n.Parent) == atom.Optgroup && hasAttr(n.Parent, "disabled")
 }
 
 func hasLegendInPreviousSiblings(n *html.Node) bool {
 	for s := n.PrevSibling; s != nil; s = s.PrevSibling {
-		if s.DataAtom == atom.Legend {
+		if htmlAtom(s) == atom.Legend {
 			return true
 		}
 	}
@@ -587,8 +600,8 @@ func inDisabledFieldset(n *html.Node) bool {
 	if n.Parent == nil {
 		return false
 	}
-	if n.Parent.DataAtom == atom.Fieldset && hasAttr(n.Parent, "disabled") &&
-		(n.DataAtom != atom.Legend || hasLegendInPreviousSiblings(n)) {
+	if htmlAtom(n.Parent) == atom.Fieldset && hasAttr(n.Parent, "disabled") &&
+		(htmlAtom(n) != atom.Legend || hasLegendInPreviousSiblings(n)) {
 		return true
 	}
 	return inDisabledFieldset(n.Parent)
@@ -602,7 +615,7 @@ func (s CheckedPseudoClassSelector) Match(n *html.Node) bool {
 	if n.Type != html.ElementNode {
 		return false
 	}
-	switch n.DataAtom {
+	switch htmlAtom(n) {
 	case atom.Input, atom.Menuitem:
 		return hasAttr(n, "checked") && matchAttribute(n, "type", func(val string) bool {
 			t := toLowerASCII(val)
-- 
2.43.0


From 6d46b268c4982688311aa5d8431cb16fb2fdcc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 54/58] fix: the xml:lang attribute of SVG and MathML elements
 gives their language

---
 internal/cascadia/pseudo_classes.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 9d7e7a3..35b4b57 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -532,14 +532,28 @@ func (s LangPseudoClassSelector) Match(n *html.Node) bool {
 	if n.Type != html.ElementNode {
 		return false
 	}
-	own := matchAttribute(n, "lang", func(val string) bool {
-		val = strings.ToLower(val)
-		return val == s.lang || strings.HasPrefix(val, s.lang+"-")
-	})
-	if n.Parent == nil || hasAttr(n, "lang") {
-		return own // the closest lang attribute decides
+	for ; n != nil; n = n.Parent {
+		if val, ok := langAttr(n); ok { // the closest lang attribute decides
+			val = strings.ToLower(val)
+			return val == s.lang || strings.HasPrefix(val, s.lang+"-")
+		}
 	}
-	return own || s.Match(n.Parent)
+	return false
+}
+
+// langAttr returns the value of the attribute that gives the language of n, if it has one:
+// xml:lang in an XML namespace, or else lang.
+func langAttr(n *html.Node) (val string, ok bool) {
+	for _, a := range n.Attr {
+		if a.Key == "lang" && a.Namespace == "xml" {
+			return a.Val, true
+		}
+	}
+	found := matchAttribute(n, "lang", func(v string) bool {
+		val = v
+		return true
+	})
+	return val, found
 }
 
 type EnabledPseudoClassSelector struct {
-- 
2.43.0


From 4df5240b5e7d03a0d9f68b37dc4fea04a4d10dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:07 +0000
Subject: [PATCH 55/58] fix: an SVG a element with xlink:href is a link

---
 internal/cascadia/pseudo_classes.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/pseudo_classes.go b/internal/cascadia/pseudo_classes.go
index 35b4b57..7525d17 100644
--- a/internal/cascadia/pseudo_classes.go
+++ b/internal/cascadia/pseudo_classes.go
@@ -520,7 +520,18 @@ type LinkPseudoClassSelector struct {
 
 // Match implements :link
 func (s LinkPseudoClassSelector) Match(n *html.Node) bool {
-	return (n.DataAtom == atom.A || n.DataAtom == atom.Area || n.DataAtom == atom.Link) && hasAttr(n, "href")
+	switch htmlAtom(n) {
+	case atom.A, atom.Area, atom.Link:
+		return hasAttr(n, "href")
+	}
+	if n.Type == html.ElementNode && n.Namespace == "svg" && n.Data == "a" {
+		for _, a := range n.Attr {
+			if a.Key == "href" && (a.Namespace == "" || a.Namespace == "xlink") {
+				return true
+			}
+		}
+	}
+	return false
 }
 
 type LangPseudoClassSelector struct {
-- 
2.43.0


From cdb9396f21cac60182d8e7404ec952f78add56bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 56/58] fix: the case of element names doesn't tell
 circumstances apart

---
 internal/cascadia/selector.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/cascadia/selector.go b/internal/cascadia/selector.go
index fc3dd6c..6683a75 100644
--- a/internal/cascadia/selector.go
+++ b/internal/cascadia/selector.go
@@ -581,13 +581,19 @@ func (s SelectorGroup) Match(n *html.Node) bool {
 
 // WithoutClass returns the text of sel with the first occurrence of class replaced by a lone dot,
 // and whether there is one. Like walk in the merge package, it does not look into :not() and :has().
-// The simple selectors of a compound are sorted, because their order has no meaning.
+// The simple selectors of a compound are sorted, because their order has no meaning, and element and attribute names are in lower case.
 func WithoutClass(sel Sel, class string) (string, bool) {
 	switch t := sel.(type) {
 	case ClassSelector:
 		if t.Class == class {
 			return ".", true
 		}
+	case TagSelector:
+		t.tag = toLowerASCII(t.tag) // the case has no meaning for HTML elements
+		return t.String(), false
+	case AttrSelector:
+		t.key = toLowerASCII(t.key)
+		return t.String(), false
 	case CombinedSelector:
 		first, found := WithoutClass(t.first, class)
 		if found {
-- 
2.43.0


From 73fd488cec86abbd30151fe456d2967689a14826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 57/58] fix: #var(--x) and @var(--x) don't use --x

---
 merge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merge.go b/merge.go
index 7902f8e..ea995b5 100644
--- a/merge.go
+++ b/merge.go
@@ -156,8 +156,8 @@ func (r *Merger) expandProp(name string) []string {
 var importantRegex = regexp.MustCompile(`(?i)(?:^|[^\\])(?:\\\\)*!\s*important\s*$`) // matches !important in a css declaration value
 const nameChar = `(?:[\w-]|[^\x00-\x7f]|\\[0-9a-f]{1,6}\s?|\\.)`                     // matches a character of a css name
 // matches custom variables in a css declaration value.
-// Strings, escapes and functions whose name only ends in var are matched too, without a submatch, to skip them
-var customVarRegex = regexp.MustCompile(`(?is)"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|` + nameChar + `+var\(|\\.|var\(\s*(--` + nameChar + `+)`)
+// Strings, escapes and longer names that end in var (also after # or @) are matched too, without a submatch, to skip them
+var customVarRegex = regexp.MustCompile(`(?is)"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|(?:[#@]|` + nameChar + `)` + nameChar + `*var\(|\\.|var\(\s*(--` + nameChar + `+)`)
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
 	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-- 
2.43.0


From 14519e6c3474e762d056763fc01c4b0ea971ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:25 +0000
Subject: [PATCH 58/58] fix: don't let the work grow with the square of the
 length of a name in a value

---
 merge.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/merge.go b/merge.go
index ea995b5..f7144b0 100644
--- a/merge.go
+++ b/merge.go
@@ -155,21 +155,20 @@ func (r *Merger) expandProp(name string) []string {
 
 var importantRegex = regexp.MustCompile(`(?i)(?:^|[^\\])(?:\\\\)*!\s*important\s*$`) // matches !important in a css declaration value
 const nameChar = `(?:[\w-]|[^\x00-\x7f]|\\[0-9a-f]{1,6}\s?|\\.)`                     // matches a character of a css name
-// matches custom variables in a css declaration value.
-// Strings, escapes and longer names that end in var (also after # or @) are matched too, without a submatch, to skip them
-var customVarRegex = regexp.MustCompile(`(?is)"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|(?:[#@]|` + nameChar + `)` + nameChar + `*var\(|\\.|var\(\s*(--` + nameChar + `+)`)
+var customVarRegex = regexp.MustCompile(`(?is)var\(\s*(--` + nameChar + `+)`)        // matches custom variables in a css declaration value
+
+// matches what a css declaration value consists of: strings, custom variables, and all other names as a whole (also after # or @)
+var valuePartRegex = regexp.MustCompile(`(?is)"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|var\(\s*--` + nameChar + `+|[#@]?` + nameChar + `+`)
 
 func getCustomVarsInDec(dec cascadia.CssDeclaration) []string {
-	matches := customVarRegex.FindAllStringSubmatch(dec.Value, -1)
-	if matches == nil {
-		return nil
-	}
-	vars := make([]string, 0, len(matches))
-	for _, match := range matches {
-		if len(match) < 2 || match[1] == "" {
-			continue
+	var vars []string
+	for _, part := range valuePartRegex.FindAllString(dec.Value, -1) {
+		if part[0] == '"' || part[0] == '\'' {
+			continue // a string can contain anything
+		}
+		if match := customVarRegex.FindStringSubmatch(part); match != nil {
+			vars = append(vars, cascadia.CssUnescape([]byte(match[1])))
 		}
-		vars = append(vars, cascadia.CssUnescape([]byte(match[1])))
 	}
 	return vars
 }
-- 
2.43.0

