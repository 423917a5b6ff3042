#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

RD, DP, RB, OP, UT, RX, CL = "readability.go", "domparser.go", "readerable.go", "options.go", "util.go", "regexps.go", "cmd/readability/readability.go"
FIX = "The tests run some 120 recorded pages and a few dozen hand-written fragments; "

prop("C01", "No input makes the library panic or end the process",
 "For every HTML string, page URL and combination of options, building a parser, extracting the article and asking whether a page is readerable return to the caller: they never panic and never end the process. Malformed markup, blank or malformed URLs, odd style declarations, JSON-LD values of any shape, missing or detached nodes and empty lists are handled, at worst with an error result.",
 ["inputs", "configurations"], "all HTML strings (nested within what the goroutine stack holds), page URLs and option values (caller-supplied functions that are given and do not panic themselves)",
 FIX + "a panic needs a shape (a nil neighbour, an empty match, a JSON number where a string is expected) that none of them has, and the space of shapes is unbounded.",
 [RD, DP, RB, UT, CL], [("nil/length/ok guards before dereference, indexing, slicing and type assertion", "all functions reachable from New, Parse, IsProbablyReaderable"), ("comma-ok type assertions on JSON-LD values", "readability.go getJSONLD")],
 observe=["New", "Parse", "IsProbablyReaderable"])

prop("C02", "Extraction terminates on every input",
 "For every input, building a parser, extracting the article and the readerable check finish: every loop moves on along the document, list or input in each round, every recursion goes down the tree, and every new extraction attempt gives up one heuristic that was still active before it.",
 ["inputs", "configurations"], "all HTML strings and options; finite trees without cycles (C03)",
 "A test can only observe that the sampled pages finish; an endless round needs a particular sibling layout or attempt history.",
 [RD, DP, UT], [("loop steps (next sibling/element, index increments, list shrinking, tokenizer)", "all loops of the library"), ("retry gives up one flag per attempt", "readability.go grabArticle")],
 state=[("active heuristics", "bit set of the heuristics still applied", "Readability.flags")], observe=["New", "Parse", "IsProbablyReaderable"])

prop("C03", "Tree edits keep parent, child and sibling links consistent",
 "After appending, removing or replacing a child, or setting the inner HTML or text of an element, all links agree: every node in a child list names that node as its parent, the element list is the child list without non-elements in the same order, neighbours name each other as previous and next (element) sibling, and a node taken out names no parent and no sibling. A node never ends up in two places.",
 ["inputs", "histories"], "all trees and all sequences of edits, whatever the kinds (element, text) and positions (only, first, middle, last, already attached elsewhere) of the nodes",
 "The edit tests check a handful of positions in one small tree; the link fields are redundant, so a stale one shows only in a later walk over a particular layout.",
 [DP, UT], [("AppendChild, RemoveChild, ReplaceChild, SetInnerHTML, SetTextContent, detach", "domparser.go"), ("indexOf, delete, insert", "util.go")],
 state=[("ParentNode, ChildNodes, Children, four sibling links", "redundant tree links", "Node")], observe=["exported Node fields after exported Node edits"])

prop("C04", "Serialized text and attribute values never become markup",
 "In the HTML written for a tree, nothing in a text or attribute value can open, close or extend a tag: the source of a text read by the parser is written with every < escaped, a text set by an edit with <, > and & escaped (and a new text or source replaces the old one), and attribute values with <, > and & escaped, enclosed in quotes the escaped value cannot contain. Every element is written as a start tag with its name and all its attributes, its children in order, and the matching end tag (void elements without children are self-closed).",
 ["inputs"], "all trees, all texts and attribute values",
 FIX + "escaping has to hold for every character sequence in every text node and attribute, set by the parser or by an edit.",
 [DP], [("GetInnerHTML", "domparser.go"), ("replacement tables and the lazily computed text/HTML of text nodes", "domparser.go"), ("text tokens stored as escaped source", "domparser.go readNode")],
 observe=["Node.GetInnerHTML", "Result.HTMLContent"])

prop("C05", "Scripts, styles, controls and foreign embeds never reach the article",
 "The extracted article contains no script, noscript, style, link, footer, aside, input, textarea, select, button or h1 element (h1 becomes h2), and no object, embed or iframe element unless one of its attributes - or for object its content - matches the allowed-video pattern. These are taken out of the whole document or of the whole article, on every attempt, and nothing brings one back afterwards.",
 ["inputs", "configurations"], "all documents, all attempts, all allowed-video patterns",
 FIX + "removal has to hold for every element at every depth, for every attempt and for patterns the tests do not set.",
 [RD], [("script/noscript/style removal on the document before the page is cached", "readability.go Parse, prepDocument"), ("element removal on the article", "readability.go prepArticle, clean"), ("h1 to h2", "readability.go prepArticle")],
 observe=["Result.HTMLContent"])

prop("C06", "The article has no presentational attributes or foreign classes",
 "No element of the extracted article outside SVG carries one of the attributes align, background, bgcolor, border, cellpadding, cellspacing, frame, hspace, rules, style, valign, vspace, and no table, th, td, hr or pre carries width or height. Unless classes are kept by option, class attributes contain only classes the caller or the library asked to preserve, and no empty class attribute is left.",
 ["inputs", "configurations"], "all documents, all class lists and preserve lists",
 FIX + "attributes have to disappear at every depth and for every spelling of the class list.",
 [RD], [("cleanStyles", "readability.go"), ("cleanClasses, preserve", "readability.go"), ("order: before serialization, after moving nodes into the article", "readability.go grabArticle, postProcessContent")],
 observe=["Result.HTMLContent"])

prop("C07", "Links and media in the article are absolute, without javascript: links",
 "Every a element of the article with a non-empty href, and every img, picture, figure, video, audio and source element with a non-empty src, poster or srcset, has each URL in it replaced by its resolution against the document base (the first base element resolved against the page URL, else the page URL); only a pure #fragment on a page without a different base stays as it is, and a URL that cannot be parsed keeps its trimmed text. Links whose href is a javascript: URL in any letter case and with surrounding white space are replaced by their content.",
 ["inputs", "configurations"], "all documents, base elements and page URLs",
 FIX + "most use one base URL and plain attributes; which attribute of which element is rewritten has to hold for all of them.",
 [RD, DP], [("fixRelativeUris", "readability.go"), ("getBaseURI", "domparser.go"), ("called on the final article before serialization", "readability.go postProcessContent")],
 observe=["Result.HTMLContent"])

prop("C08", "Extractions are independent of each other and deterministic",
 "The result of an extraction or readerable check is a function of its arguments: no extraction, option or DOM operation writes state shared between parsers (package variables or storage reachable from them, such as default lists), so earlier and concurrent uses of other parsers cannot change it. It does not depend on map iteration order, time, random numbers, the environment or goroutine scheduling.",
 ["schedules", "histories", "inputs"], "all interleavings and histories of uses of distinct parsers",
 "The tests run sequentially on fresh parsers and never compare two histories or schedules.",
 [RD, DP, RB, OP, UT, RX], [("package variables only written at initialization", "all library files"), ("per-parser state in Readability and Node", "readability.go, domparser.go")],
 observe=["New", "Parse", "IsProbablyReaderable"])

prop("C09", "The library does no I/O and has no process-wide side effects",
 "Using the library (everything except the command line tool) never opens files or connections, starts processes or goroutines, reads or changes the environment, writes to standard output or error, or changes global settings of other packages; the only effect besides the returned values is records sent to the caller-configured default structured logger. It never loads a URL found in the document.",
 ["inputs", "configurations"], "all calls of the library's exported API",
 "Absence of effects cannot be tested; tests look only at returned values.",
 [RD, DP, RB, OP, UT, RX], [("calls leaving the module", "all library files")], observe=["all exported API"])

prop("C10", "Result and error contract of building and extracting",
 "Building a parser and extracting return either a non-nil value and a nil error or a nil value and a non-nil error; an empty source, a source without body and a document without text are errors. In a result the HTML is what the serializer returns for the article element, the text is the text of that same article (or what the configured HTML-to-text function returns for that HTML), the length is the number of characters (not bytes) of that text, and an excerpt missing in the metadata is the trimmed text of the article's first paragraph.",
 ["inputs", "configurations"], "all inputs and option values, all return paths",
 FIX + "the correlation has to hold on every return path and for option values (serializer, converter) the tests do not combine.",
 [RD], [("returns of New and Parse", "readability.go"), ("construction of Result", "readability.go Parse")], observe=["New", "Parse", "Result"])

prop("C11", "Each option sets exactly its own setting, over the documented default",
 "Each option constructor changes exactly the one setting it is named after, to the value given (the preserve-classes option adds to the default list), and leaves all others alone; options are applied in order over the defaults, so the last one wins and options not given keep the documented default (no element limit, 5 top candidates, 500 characters, class 'page' preserved, classes removed, JSON-LD on, inner-HTML serializer, minimum score 20, minimum content length 140). Each setting is consulted where it is documented to act.",
 ["configurations"], "all option combinations and orders",
 "The tests set few options, one at a time; combinations and orders are unbounded.",
 [OP, RD, RB], [("option constructors and defaults", "options.go"), ("application of the options", "readability.go New, readerable.go")],
 state=[("settings", "one field per option", "Options")], observe=["New", "IsProbablyReaderable"])

prop("C12", "The element limit stops extraction before anything is touched",
 "When a positive maximum number of elements is set and the document has more elements than that, extraction returns an error and does so before the document is modified or any metadata is read; with exactly that many or fewer elements, or with a limit of zero or less, the limit has no effect. All elements of the document count.",
 ["inputs", "configurations"], "all documents and limits",
 "The tests use one document and one limit.",
 [RD], [("limit check at the start of Parse", "readability.go Parse")], observe=["Parse"])

prop("C13", "Every retry restarts from the untouched page and the best attempt wins",
 "When an attempt yields less text (in characters) than the character threshold, the page is restored to the content it had before the first attempt, exactly one further heuristic is switched off (first stripping unlikely elements, then class weights, then conditional cleaning) and extraction is tried again. An attempt that reaches the threshold is returned at once; when no heuristic is left, the attempt with the most text is returned, and only if all attempts are empty is there no article.",
 ["inputs", "histories"], "all documents, thresholds and attempt histories",
 FIX + "few of them need more than one attempt, and none compares attempts of a particular length order.",
 [RD], [("retry loop and attempt list", "readability.go grabArticle"), ("page cache captured before the loop", "readability.go grabArticle")],
 state=[("flags", "heuristics still active", "Readability.flags"), ("attempts", "candidates and their text length", "Readability.attempts")], observe=["Parse"])

prop("C14", "Hidden content inside the body never reaches the article",
 "Elements inside the body that carry the hidden attribute, inline display:none or visibility:hidden, aria-hidden=\"true\" (unless their class contains fallback-image), or aria-modal=\"true\" together with role=\"dialog\", are removed with their content on every attempt, whatever heuristics are active; so are elements with a role of menu, menubar, complementary, navigation, alert, alertdialog or dialog. Elements carrying none of these marks are not removed for being hidden.",
 ["inputs", "configurations"], "all documents, all attempts",
 FIX + "the hidden marks must work on any element, at any depth, in combination with any other heuristic, on every attempt.",
 [RD, DP], [("visibility test and removal in the element walk", "readability.go grabArticle, isProbablyVisible"), ("inline style lookup", "domparser.go getStyle")], observe=["Result.HTMLContent", "Result.TextContent"])

prop("C15", "The readerable verdict counts only visible, likely, long enough nodes",
 "The readerable check adds up a score over p, pre and article elements and over divs with a br child, each once, counting a node only if the visibility checker accepts it, its class and id do not look unlikely (or look like content after all), it is not a paragraph inside a list item, and its trimmed text is at least the minimum content length; each counted node adds the square root of its excess length. The verdict is true exactly when the running score exceeds the minimum score; the default checker rejects inline display:none and visibility:hidden, the hidden attribute, and aria-hidden=\"true\" without a fallback-image class.",
 ["inputs", "configurations"], "all documents and option values",
 FIX + "gating conditions have to hold for every combination of node properties and thresholds.",
 [RB, UT, RX], [("IsProbablyReaderable, isNodeVisible", "readerable.go"), ("selector and text helpers", "util.go")], observe=["IsProbablyReaderable"])

prop("C16", "Metadata comes from the documented sources in the documented order",
 "Title, byline, excerpt, site name and published time are each the first non-empty value of a fixed order of sources: JSON-LD (unless disabled) before dc, dcterm, og, weibo:article, weibo:webpage, plain and twitter meta tags as far as they exist for the field; only then does the title fall back to the document title, the byline to the byline found in the content, and the excerpt to the first paragraph. Meta tag keys are compared case-insensitively without white space, only non-empty contents count, values are trimmed and entity-decoded, and JSON-LD is used only from scripts of type application/ld+json with a schema.org context and an article type.",
 ["inputs", "configurations"], "all combinations of present and absent sources",
 FIX + "the precedence of n sources has exponentially many presence combinations.",
 [RD, UT, RX], [("getArticleMetadata, anyOf", "readability.go, util.go"), ("getJSONLD", "readability.go"), ("Result construction", "readability.go Parse")], observe=["Result.Title, Byline, Excerpt, SiteName, PublishedTime"])

prop("C17", "The content byline is the first plausible one, trimmed and bounded",
 "The byline taken from the content is the trimmed text of the first visible element in document order that is marked as author (rel=\"author\", itemprop containing author, or a byline-like class or id) and whose trimmed text has more than 0 and fewer than 100 characters; that element is removed from the page in the attempt that finds it, and once a byline is found no other element is taken or removed as one. Elements with an empty or longer text are left in place.",
 ["inputs", "histories"], "all documents and attempts",
 FIX + "the bounds and the first-only rule need documents with several candidates around the bounds.",
 [RD, RX], [("checkByline, isValidByline", "readability.go")], state=[("found byline", "byline taken from the content", "Readability.articleByline")], observe=["Result.Byline"])

prop("C18", "Element names are compared without regard to letter case",
 "Wherever the library recognises an element by its name - in source markup, tag lookups, heuristics and serialization - the spelling of the name in the source does not matter: the canonical name of every node is upper case, its local name lower case, and they are only ever compared with or set to names in that case. Looking up elements by name accepts any letter case.",
 ["inputs", "programs"], "all element name spellings, all comparison sites",
 "A comparison with the wrong case compiles, never matches and silently disables a rule; the tests pass because other rules mask it.",
 [RD, DP, UT], [("TagName/LocalName comparisons and writes", "all library files"), ("normalization in newElement, setNodeTag, getElementsByTagName", "domparser.go, readability.go")],
 state=[("TagName, LocalName", "canonical names", "Node")], observe=["all exported API"])

prop("C19", "Data tables, code blocks and videos are shielded from cleaning",
 "Conditional cleaning never removes a table recognised as data table, nor anything inside one, nor anything inside a code element (within four levels), nor - unless its class or id counts against it - an element holding an embed (object, embed, iframe) with an attribute, or for object the content, that matches the allowed-video pattern; and removal of elements with an unlikely class or id never removes body, links, elements inside a table or code element (within four levels), or elements whose class or id also looks like content. A table with role presentation or datatable=\"0\" is no data table; one with a summary, a non-empty caption, or a col, colgroup, tfoot, thead or th is; otherwise one with a nested table is not, and else at least 10 rows, more than 4 columns or more than 10 cells make one.",
 ["inputs", "configurations"], "all documents and attempts",
 FIX + "the shields must win over every other heuristic in every combination.",
 [RD, RX], [("cleanConditionally, hasAncestorTag, markDataTables", "readability.go"), ("unlikely candidate removal", "readability.go grabArticle")],
 state=[("data table mark", "verdict per table", "Node.ReadabilityDataTable")], observe=["Result.HTMLContent"])

prop("C20", "The command line tool reports every failure and prints only results",
 "The command line tool prints a result and exits with status 0 only if fetching the URL, reading the response, building the parser and extracting all succeeded; on a missing URL or the first failing step it prints the error and exits with a non-zero status before using any result of that step. With output format html (either flag spelling) it prints the article HTML, otherwise the article text, and logs nothing unless verbose is set.",
 ["inputs", "fault_sequences", "configurations"], "all command lines and all failures of the steps",
 "The command has no tests at all.",
 [CL], [("handle, exit, main", "cmd/readability/readability.go")], observe=["exit status and standard output of the tool"])

prop("C21", "The parser keeps all text, elements and attributes of the source",
 "Parsing builds one element per start or self-closing tag with the tag's name and all its attributes, one text node per non-empty run of text with all of its text, and nothing for comments; each becomes a child of the innermost open element, in source order. A start tag opens its element (void or not), a self-closing tag does not; an end tag closes the innermost open element if it has its name and is ignored otherwise. Character references in text (lt, gt, amp, quot, apos, up to 5 decimal or 4 hexadecimal digits) are decoded in a single pass. All of the source is read, nothing inside the html element is dropped or duplicated, root-level nodes beside it are removed, and title (the first non-empty one), head, body and root element are the elements of that name.",
 ["inputs"], "all HTML strings",
 FIX + "markup has unbounded token sequences.",
 [DP, UT], [("readNode, makeElementNode, parse", "domparser.go"), ("decodeHTML", "domparser.go")], observe=["New", "Node tree"])

prop("C22", "DOM lookups are complete and accessors return what was set",
 "Looking up elements by tag name returns every descendant element with that name exactly once in document order ('*' returns all), lookup by id the first element with that id, and the text of an element is the concatenation of all text below it in order. Reading an attribute returns the value last set under exactly that name, an attribute is present after setting and absent after removing it, and setting or removing one attribute leaves the others unchanged.",
 ["inputs", "histories"], "all trees and sequences of accesses",
 "The tests query small fixed trees.",
 [DP, UT], [("getElementsByTagName, GetElementById, GetTextContent", "domparser.go"), ("GetAttribute, SetAttribute, RemoveAttribute, HasAttribute", "domparser.go")], observe=["exported Node methods"])

prop("C23", "Language and text direction come from the document itself",
 "The reported language is the lang attribute of the html element. The reported direction is the dir attribute of the first node that has one among the parent of the chosen content, the chosen content, and the further ancestors from the inside out; without any it is empty.",
 ["inputs"], "all documents",
 FIX + "few pages carry dir, none on several levels.",
 [RD], [("language in the element walk, direction from ancestors", "readability.go grabArticle"), ("Result construction", "readability.go Parse")], observe=["Result.Lang", "Result.Dir"])

prop("C30", "The chosen article is the best-scoring content of the page",
 "The extracted article is the part of the page a reader would consider its main content: the element with the highest content score after link-density scaling, joined with related siblings.",
 ["inputs"], "all pages", "There is no formal oracle for 'main content'; the recorded pages are the only specification.",
 [RD], [("scoring and candidate selection", "readability.go grabArticle")], observe=["Result.HTMLContent"])
prop("C31", "Serializing and re-parsing a tree gives an equal tree",
 "Parsing the HTML written for a tree yields a tree with the same elements, attributes and texts.",
 ["inputs"], "all trees", "Round-trip equality over unbounded trees.", [DP], [("GetInnerHTML and parse", "domparser.go")], observe=["Node.GetInnerHTML", "New"])
prop("C32", "Kept article text is neither lost nor duplicated nor reordered",
 "Every text inside the chosen content that no rule removes appears in the result exactly once and in document order.",
 ["inputs"], "all pages", "Needs the semantics of every rewriting step on unbounded trees.", [RD, DP], [("node moves in replaceBrs, grabArticle, simplifyNestedElements, fixRelativeUris", "readability.go")], observe=["Result.TextContent"])
prop("C33", "Extraction time and stack depth stay proportional to the page size",
 "Extraction needs time and memory at most polynomial in the size of the page and bounded stack depth.",
 ["inputs"], "all pages", "Resource use depends on run-time quantities.", [RD, DP], [("recursive walks, retry loop", "readability.go, domparser.go")], observe=["Parse"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
