#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech,
                     observe_at=observe or ["return value of Merge"], hook_needed=None)))
def m(name, where): return dict(name=name, where=where)
M, C = "merge.go", "cache.go"
R, S, PA, SE, PS, SP = ["internal/cascadia/"+x for x in ("rules.go","selector.go","parser.go","serialize.go","pseudo_classes.go","specificity.go")]
PR, PJ = "internal/props/properties.go", "internal/props/gen/properties.json"

p("C01","The last class that sets a property survives the merge",
 "For every loaded stylesheet and class list, and for each individual non-custom CSS property in each circumstance (enclosing conditional at-rules, pseudo-classes, pseudo-element, surrounding selector) that some recognised class of the list sets, the last class of the list that sets it is in the merged output. Hence no class is removed unless every non-custom property it sets is set again, in the same circumstance, by a later class of the list; this does not depend on how many classes the list has, how often one is repeated, how classes are named, or whether several classes occur in the same selector.",
 ["inputs","configurations"],"every stylesheet x every class list (any length, repetition, naming) x both order modes",
 "TestMerge samples about 130 short lists over one fixed stylesheet; the guarantee is over all stylesheets and lists.",
 [M],[m("per property+circumstance map overwritten in list order","merge.go Merge"),m("kept set assembled from the winners","merge.go Merge"),m("circumstance key","merge.go propModifier")],
 [dict(name="winner map",meaning="for each property and circumstance, the class that set it last",where="merge.go Merge")])
p("C02","A fully overridden class is removed",
 "A recognised class is absent from the merged output when every property it sets is set again in the same circumstance by classes that come later in the list, provided it declares nothing !important and sets no custom property that is in use. A surviving recognised class that sets something always has a reason: it is the last to set some property, the last to set one as !important, or the setter of a custom property in use.",
 ["inputs","configurations"],"every stylesheet x every class list",
 "The tests show removal on hand-picked pairs; nothing checks that no other combination leaves an overridden class behind.",
 [M],[m("only winners are copied to the kept set","merge.go Merge"),m("set of affected properties per rule","merge.go getAffectedProps")])
p("C03","Shorthands conflict exactly with the properties they expand to",
 "A declaration of a shorthand counts as setting exactly the individual properties the shorthand expands to, through every level of nesting (for instance border covers border-width and border-top-width; border-block-end does not cover border-top-width). So a later shorthand removes classes that set only properties it covers, a later longhand never removes a shorthand that sets more, and a property the data set does not know (such as stroke) conflicts only with itself.",
 ["inputs"],"every ordered pair of known property names, plus unknown names, and multi-class combinations that jointly cover a shorthand",
 "Tests touch some ten shorthand/longhand pairs out of 551 x 551.",
 [M,PR,PJ],[m("property table from MDN data","internal/props/gen/properties.json"),m("expansion of a rule's declarations","merge.go getAffectedProps")])
p("C04","Rules are compared only within the same circumstance",
 "Two classes conflict only if their rules apply in the same circumstance: the same chain of enclosing @media/@supports conditions (at any nesting depth, and wherever in the block the rule stands), the same set of pseudo-classes, the same pseudo-element, and the same surrounding selector once the class itself is taken out. For a class with pseudo-classes the order in which these are written is irrelevant, and classes in different circumstances never remove each other.",
 ["inputs","configurations"],"every pair of circumstances drawn from at-rule nests, pseudo-class sets, pseudo-elements, attribute conditions and combinator contexts",
 "The tests use a dozen circumstances, no pseudo-element conflict, no nested at-rule and no at-rule combined with a pseudo-class.",
 [M,R,S],[m("circumstance key","merge.go propModifier"),m("at-rule tracking","internal/cascadia/rules.go ExtractRules"),m("sorted pseudo-class string","internal/cascadia/selector.go PseudoElementsString")])
p("C05","!important beats later ordinary declarations, property by property",
 "If any class of the list declares a property !important in a circumstance, the last class that does so is in the output even when later classes set that property without !important. Importance belongs to the single declaration: an important declaration gives no protection to the other properties of its class, so a class is removed once each property is set by a later class and each property it declares !important is declared !important by a later class.",
 ["inputs"],"every stylesheet with a mix of important and ordinary declarations, shorthands included x every class list",
 "Five test cases use !important, always on single-declaration rules.",
 [M],[m("important winner map","merge.go Merge"),m("importance detection in the value","merge.go importantRegex")])
p("C06","Classes that set custom properties stay exactly while the variables are used",
 "A class that is the last in its circumstance to set a custom property is kept if that property is referenced with var() by a declaration of a class that wins its property (or wins it as !important) in the list, be it the last such declaration of the class or one before it, which browsers fall back to, directly or through the winning definitions of other custom properties, whatever the circumstances of definition and use; it is kept whatever the order of the rest of the rule's declarations. A class that only sets custom properties which are not so used, or which a later class sets in the same circumstance, is removed.",
 ["inputs"],"every stylesheet mixing var() uses (nested, with fallbacks, spaced) and custom-property definitions under conditions x every class list",
 "Tests cover ring/shadow/touch and font-variant lists only: no conditional variable, no variable used through another one where the setter stands alone.",
 [M],[m("variable extraction from values","merge.go getCustomVarsInDec / customVarRegex"),m("setter and user maps","merge.go Merge")])
p("C07","The output is a duplicate-free selection of the input's classes",
 "Every class in the output occurs in the input byte for byte, none occurs twice, and they are separated by single spaces. Every class of the input (split at ASCII whitespace) that no loaded rule mentions is kept, as is every class whose rule declares nothing; an input with fewer than two classes is returned unchanged.",
 ["inputs"],"every string as class list, including arbitrary bytes, Unicode, tabs, newlines, repeated and leading/trailing whitespace",
 "Tests use single spaces between well-formed names and two unknown classes.",
 [M],[m("splitting and de-duplication","merge.go Merge / unique")])
p("C08","Merging is deterministic and respects the requested order",
 "For given rules, configuration and input, Merge returns the same string on every call, merger instance and process. With order keeping on, the classes appear in the order of their last occurrences in the input; with it off, exactly the same set of classes is returned.",
 ["inputs","configurations","histories"],"every stylesheet x class list x order mode, over repeated calls, instances and processes (the implementation iterates over Go maps in random order)",
 "Each test list is merged once, with order keeping on.",
 [M],[m("sort by index of last occurrence","merge.go sortSubset"),m("sorted de-duplication","merge.go unique")])
p("C09","Merging is idempotent and composes",
 "With order keeping on, merging an output again returns the same string. For lists without custom properties, merging a front part first makes no difference: Merge(Merge(a) + ' ' + b) equals Merge(a + ' ' + b), which is what a component that merges its defaults and is later overridden relies on.",
 ["inputs","histories"],"every stylesheet x every list and every split of it, and chains of several merges",
 "No test merges an output again or composes merges.",
 [M],[m("winners are unaffected by removed classes","merge.go Merge")])
p("C10","A class is governed by the last rule that mentions it, and by nothing else",
 "The rule that decides for a class is the last loaded rule whose selector mentions the class, across and within stylesheets; earlier rules for it leave no trace. Adding stylesheets one after another is the same as adding their concatenation, and the order of rules for different classes never influences a merge.",
 ["inputs","histories"],"every sequence of stylesheets with redefinitions x every class list; every permutation of rules that keeps the relative order of rules mentioning a common class",
 "One fixed stylesheet is loaded once; no test adds a second stylesheet or permutes one.",
 [M,R],[m("class to rule map overwritten in source order","merge.go AddRules"),m("walk over the selector's classes","merge.go walk")],
 [dict(name="rules",meaning="class name to governing rule",where="merge.go Merger")])
p("C11","A cache never changes what Merge returns",
 "For every history of adding stylesheets and merging on one goroutine, a merger with a cache (the bundled one or any correct implementation of the interface) returns the same strings as one without. This holds however many distinct lists are merged, however long or similar they are, and across additions that fail.",
 ["histories","inputs","configurations"],"every interleaving of AddRules and Merge calls x cache implementation (bundled, lossy, counting, user-written)",
 "Cache tests exercise Get/Set/Clear alone; no test merges with a cache except a benchmark that checks nothing.",
 [M,C],[m("lookup and store keyed by the exact input","merge.go Merge"),m("clearing on rule changes","merge.go AddRules")],
 [dict(name="cache",meaning="memo of input to output",where="merge.go Merger")],["return values of Merge with and without cache","calls on the Cache interface"])
p("C12","Concurrent merging and rule loading is race-free and never stale",
 "When several goroutines merge and add stylesheets on one merger, with no cache or a concurrency-safe one, there is no data race, crash or deadlock. Every merge returns what it would return under one of the complete rule sets in force between its start and its end (never a half-added stylesheet), and a merge that starts after an addition has returned reflects that addition, cached results included.",
 ["schedules","histories"],"every interleaving of Merge and AddRules calls x slow readers and slow caches x cache kinds",
 "All tests are single-threaded.",
 [M,C],[m("merger mutex","merge.go AddRules / Merge"),m("cache invalidation","merge.go AddRules")],
 [dict(name="rules",meaning="rule map shared by all goroutines",where="merge.go Merger")],["call/return history of Merge and AddRules","race detector reports"])
p("C13","The bundled cache behaves as one atomic map under concurrency",
 "Every concurrent history of Get, Set and Clear on one bundled cache is linearizable with respect to a plain map: a Get returns the value last Set for exactly that key and not cleared since, otherwise a miss with the empty string, and Clear empties all keys at once. No history has a data race, and the number of entries or the length of keys makes no difference.",
 ["schedules","histories"],"every interleaving of Get/Set/Clear x any number and shape of keys",
 "Cache tests are sequential with two keys.",
 [C],[m("sync.Map plus mutex","cache.go SimpleCache")],
 [dict(name="items",meaning="key to merged string",where="cache.go SimpleCache")],["call/return history of Get/Set/Clear","race detector reports"])
p("C14","Loading any bytes and merging any string terminates without crashing",
 "Adding any byte sequence as a stylesheet, inline or not, returns after a bounded amount of work with success or an error, and merging any string with any loaded rules returns; neither panics, hangs or leaves the merger locked, and afterwards the merger still accepts stylesheets and merges.",
 ["inputs"],"every byte sequence as stylesheet (well-formed, truncated, unbalanced, mutated) x every string as class list",
 "The tests load one well-formed file.",
 [M,R,PA],[m("parse loop and error exits","internal/cascadia/rules.go ExtractRules"),m("at-rule prelude handling","internal/cascadia/rules.go parseAtRuleName"),m("selector parser","internal/cascadia/parser.go")],
 None,["return, panic or CPU consumption of AddRules and Merge"])
p("C15","A failed stylesheet addition changes nothing",
 "When adding a stylesheet reports an error, because it cannot be parsed or because its reader fails at any point, every merge returns what it returned before, as if the call had not been made, and the rule table is unchanged. A reader error is always reported, and so is text that the CSS parser cannot make sense of (a declaration without a colon or a name, a closing brace too many), wherever it stands; an addition that reports success has taken in every rule of a well-formed stylesheet, including those after rules that had to be skipped.",
 ["inputs","fault_sequences","histories"],"every stylesheet x every position of a read fault or syntax error x prior history, with and without cache",
 "No test makes AddRules fail.",
 [M,R],[m("rules are extracted completely before any is stored","merge.go AddRules"),m("error returns","internal/cascadia/rules.go ExtractRules")],
 None,["error returned by AddRules","merge results and Rules() before and after"])
p("C16","Only the CSS content of a stylesheet matters, not its text layout",
 "Merge results do not change when a stylesheet is rewritten without changing its CSS meaning: comments, whitespace, indentation, a byte order mark at the start, line endings or minification, an optional last semicolon, case of property names and of at-keywords, or skipped at-rules (such as @keyframes, @font-face, @layer, @import) placed between rules. Nor do they depend on the sizes of the pieces in which the reader delivers the text.",
 ["inputs","fault_sequences"],"every stylesheet x every meaning-preserving rewriting x every chunking of the reader",
 "One file in one layout is loaded from one contiguous buffer.",
 [R,M],[m("token to value assembly","internal/cascadia/rules.go buildDeclaration / getSelector / parseAtRuleName"),m("grammar event loop","internal/cascadia/rules.go ExtractRules")])
p("C17","Classes are recognised by their exact name, however it is escaped",
 "A class whose name is any string legal in a class attribute, written in the stylesheet in any legal CSS escaping (backslash-character or hexadecimal, with or without the terminating space), is recognised in merges under exactly its decoded name. No other class name, however similar, is treated as that class.",
 ["inputs"],"every class name (Tailwind punctuation, leading digits and hyphens, Unicode) x every legal escape spelling",
 "Tests contain the escapes Tailwind emitted for one file, all of backslash-character form.",
 [PA,R,M],[m("escape decoding","internal/cascadia/parser.go parseEscape / parseName"),m("rule lookup by name","merge.go Merge")])
p("C18","Mergers keep to themselves: no shared state, no effect on caller memory",
 "Using one merger never changes what another merger returns. Adding a stylesheet never writes to memory the caller owns (including spare capacity behind a buffer) and is unaffected by what the caller does to that memory afterwards; merging never changes the loaded rules.",
 ["histories","inputs"],"every history of operations over several mergers x readers that expose their buffer x later modification of that buffer",
 "Tests use one merger, or a buffer that is never looked at again.",
 [M,R,PR],[m("copying of token data into strings","internal/cascadia/rules.go"),m("per-merger property table","merge.go NewMerger")],
 None,["red-zone bytes around caller buffers","merge results of bystander mergers","Rules() before and after merges"])
p("C19","The exposed rule table states the stylesheet faithfully",
 "After loading, the rule table has exactly one entry per class name mentioned in a loaded rule (outside :not() and :has(), and inside @media/@supports but not inside other block at-rules), and that entry carries the governing rule's selector and its declarations in source order: property name in lower case (custom properties verbatim) and value with its meaning preserved, !important included. A rule printed in CSS format reads back as a rule with the same selector and declarations.",
 ["inputs"],"every stylesheet over nested selectors, functions, strings, multi-value declarations and at-rules",
 "One extraction test compares six rules.",
 [R,M],[m("declaration assembly","internal/cascadia/rules.go buildDeclaration"),m("class collection","merge.go walk")],
 None,["Rules()"])
p("C20","Selectors match the elements CSS says they match",
 "For every document and every supported selector (type, universal, class, id, attribute operators with or without the i flag, structural, link, form-state and language pseudo-classes, those of user interaction, which match nothing in a document at rest, :not/:is/:where/:has, all combinators, groups), the set of elements the selector engine reports as matching is the set the CSS Selectors specification defines. The extensions ([a!=b], [a#=regexp], :contains, :containsOwn, :matches, :matchesOwn, :haschild, :input) match what their documentation says.",
 ["inputs"],"every HTML tree x every supported selector",
 "The selector tests compare a few hundred fixed selector/document pairs.",
 [S,PS],[m("Match methods","internal/cascadia/selector.go, internal/cascadia/pseudo_classes.go")],None,["Match / QueryAll results"])
p("C21","A selector printed as text reads back as the same selector",
 "For every selector the parser accepts, printing it and parsing the printed text succeeds and gives an equal selector (same structure, specificity, pseudo-element and printed form), whatever characters its names, attribute values and arguments contain.",
 ["inputs"],"every accepted selector, including escaped names, quotes and control characters in strings, regular expressions and nested groups",
 "The serialisation test round-trips the selectors of the other tests, which contain hardly any escapes.",
 [SE,PA],[m("String methods and escaping","internal/cascadia/serialize.go")],None,["String / Parse round trip"])
p("C22","Specificity follows the Selectors specification",
 "The specificity of every selector is (ids, classes+attributes+pseudo-classes, types+pseudo-elements) counted over its parts, where :is, :not and :has count as their most specific argument and :where counts zero; comparison is lexicographic, and a strict total order on distinct values.",
 ["inputs"],"every supported selector, nested to any depth; every pair of specificities",
 "About twenty fixed selectors are tested.",
 [SP,S,PS],[m("Specificity methods","internal/cascadia/selector.go, internal/cascadia/pseudo_classes.go"),m("Less / Add","internal/cascadia/specificity.go")],None,["Specificity / Less / Add"])
p("C23","The selector parser is total and strict",
 "For any string the selector parser returns, in bounded work and without panicking, either a selector or an error; it never ignores part of the text. A pseudo-element is rejected where the caller did not ask for pseudo-element support, and text that no selector grammar allows (dangling or doubled combinators, empty list members, unclosed brackets, quotes or parentheses, trailing garbage) is rejected, while every selector formed by the supported grammar is accepted.",
 ["inputs"],"every string; every grammatical selector and every structural corruption of one",
 "Some forty invalid selectors are listed in a fixture.",
 [PA,S],[m("recursive-descent parser and left-over check","internal/cascadia/parser.go, internal/cascadia/selector.go Parse*")],None,["result or error of the four parse entry points"])
p("C24","Queries return all matches once, in document order",
 "Searching below a node yields every matching descendant exactly once in document order and never the node itself; the single-result search yields the first of them or nothing, and a selector list matches exactly the union of its members. A search changes nothing in the tree.",
 ["inputs"],"every tree, start node and selector list",
 "Tests compare results on small fixed documents from the root.",
 [S],[m("tree walks","internal/cascadia/selector.go QueryAll / Query / SelectorGroup.Match")],None,["Query / QueryAll results"])
p("C25","The property table reflects its data file and is private to each caller",
 "For every entry of the CSS property data file the loaded table has one property under the same name with the same status and applies-also list, whose individual properties are the listed ones if the data lists several and the property itself otherwise. Every load returns an equal table, and changing one loaded table or anything reached from it does not affect another.",
 ["inputs","histories"],"every entry of the data file; repeated and concurrent loads",
 "Three of 551 entries are tested.",
 [PR,PJ],[m("decoding and normalisation","internal/props/properties.go GetProperties / computedProps")],None,["GetProperties result"])
p("C26","Merged classes render as the last in the list, whatever the stylesheet order",
 "Take any list without custom properties in which each recognised class sets its properties in one circumstance, any two classes set there either exactly the same properties or disjoint ones, and each rule is wholly !important or wholly not. Then applying the CSS cascade to the merged classes gives every property in every circumstance the value from the last class of the original list that sets it (the last important one if any), for every order of the rules in the stylesheet.",
 ["inputs","configurations"],"every such stylesheet and list x every order of the rules in the stylesheet",
 "No test relates the output to what a browser would render.",
 [M,R],[m("last-wins selection","merge.go Merge")])
p("C27","A parsed selector is an immutable value without memory",
 "Whether a parsed selector matches a node depends on the selector and on the tree as it is at that moment, and on nothing else: the answers are the same however often, in whatever order and on whatever other documents the selector was used before, whatever else has been parsed since, after any edit of the tree (attributes, texts and names changed, nodes added, moved or removed) they are those of a freshly parsed selector, and several goroutines can use one selector at once. Matching, searching and printing never change a selector: its text, specificity and pseudo-element stay what they were.",
 ["inputs","histories","schedules"],"every selector, every history of uses and edits of any documents, every concurrent use",
 "Tests match each selector once against a document that never changes, in one goroutine.",
 [S,PS,SE],[m("Match methods compute from the node and its relatives","internal/cascadia/selector.go, internal/cascadia/pseudo_classes.go"),m("String / Specificity","internal/cascadia/serialize.go, internal/cascadia/pseudo_classes.go")],None,["Match, Query, QueryAll, String, Specificity of one selector over time"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))
