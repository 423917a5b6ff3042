From 81489c5e0234eb11c517670245c4dfd6caeef8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:47 +0000
Subject: [PATCH 01/28] fix: do not panic on blank link URIs

An href made of white space only (or an empty item of a ',%20' separated list) was
indexed at position 0 after trimming.
---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 1045860..5b4e434 100644
--- a/readability.go
+++ b/readability.go
@@ -269,7 +269,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 	var toAbsoluteURI = func(uri string) string {
 		uri = strings.TrimSpace(uri)
 		// Leave hash links alone if the base URI matches the document URI:
-		if baseURI == documentURI && []rune(uri)[0] == '#' {
+		if baseURI == documentURI && strings.HasPrefix(uri, "#") {
 			return uri
 		}
 		base, err := url.Parse(baseURI)
-- 
2.43.0


From 342d4745b16376b074868048360ea38050020d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:48 +0000
Subject: [PATCH 02/28] fix: do not panic on inline style declarations without
 a value

<p style="display"> made the style lookup index a missing value.
---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index b1e5d88..a503681 100644
--- a/domparser.go
+++ b/domparser.go
@@ -807,7 +807,7 @@ func (s *style) getStyle(jsName string) string {
 	for i := 0; i < len(styles); i++ {
 		var style = strings.Split(styles[i], ":")
 		var name = strings.TrimSpace(style[0])
-		if name == cssName {
+		if name == cssName && len(style) > 1 {
 			return strings.TrimSpace(style[1])
 		}
 	}
-- 
2.43.0


From 3f93fe20a57874064a20575421d6c9f73c44d07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:49 +0000
Subject: [PATCH 03/28] fix: do not panic on JSON-LD values of unexpected type

@context and @type may be arrays or objects, and an author list may contain items
which are not objects or have no name: skip them instead of asserting their type.
---
 readability.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/readability.go b/readability.go
index 5b4e434..bc7e4b0 100644
--- a/readability.go
+++ b/readability.go
@@ -1328,8 +1328,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				continue
 			}
 
-			ctx, ctxFound := parsed["@context"]
-			if !ctxFound || !schemaUrl.MatchString(ctx.(string)) {
+			ctx, ctxIsStr := parsed["@context"].(string)
+			if !ctxIsStr || !schemaUrl.MatchString(ctx) {
 				continue
 			}
 
@@ -1354,7 +1354,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				}
 			}
 
-			if parsed == nil || parsed["@type"] == nil || !jsonLdArticleTypes.MatchString(parsed["@type"].(string)) {
+			articleType, typeIsStr := parsed["@type"].(string)
+			if !typeIsStr || !jsonLdArticleTypes.MatchString(articleType) {
 				continue
 			}
 
@@ -1402,8 +1403,11 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 								if _, isStr := authorName.(string); isStr {
 									var authorNames []string
 									for _, a := range authors {
-										n := a.(map[string]interface{})["name"].(string)
-										authorNames = append(authorNames, strings.TrimSpace(n))
+										if obj, isObj := a.(map[string]interface{}); isObj {
+											if n, isStr := obj["name"].(string); isStr {
+												authorNames = append(authorNames, strings.TrimSpace(n))
+											}
+										}
 									}
 									meta.byline = strings.Join(authorNames, ", ")
 								}
-- 
2.43.0


From 2f40e0835fc69f3c116ce2cbee781b3a9d6d670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:50 +0000
Subject: [PATCH 04/28] fix: do not panic on data URIs with an upper-case
 base64 marker

The data URI pattern is case-insensitive while the one locating the marker was not.
---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 34c0b95..1a2112e 100644
--- a/regexps.go
+++ b/regexps.go
@@ -48,7 +48,7 @@ var (
 	// name is a single value
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
 	imgExtensions                 = regexp.MustCompile(`\.(jpg|jpeg|png|webp)`)
-	base64Starts                  = regexp.MustCompile(`base64\s*`)
+	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
 	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
 	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
 )
-- 
2.43.0


From 006c236151c42ec44c9ece65b255e070f20d154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:51 +0000
Subject: [PATCH 05/28] fix: accept a nil allowed video pattern when cleaning
 embeds

Conditional cleaning already treats a nil pattern as 'no video allowed'.
---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index bc7e4b0..ffbd55c 100644
--- a/readability.go
+++ b/readability.go
@@ -1776,7 +1776,7 @@ func (r *Readability) clean(e *Node, tag string) {
 
 	r.removeNodes(r.getAllNodesWithTag(e, tag), func(element *Node) bool {
 		// Allow youtube and vimeo videos through as people usually want to see those.
-		if isEmbed {
+		if isEmbed && r.options.allowedVideoRegex != nil {
 			// First, check the elements attributes to see if any of them contain youtube or vimeo
 			for i := 0; i < len(element.Attributes); i++ {
 				if r.options.allowedVideoRegex.MatchString(element.Attributes[i].getValue()) {
-- 
2.43.0


From 4077c5b5bd5de5c90a5623a18165df7be8690b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:52 +0000
Subject: [PATCH 06/28] fix: do not climb past the root when the top candidate
 lies outside of the body

<html><div>...</div><body/></html> dereferenced the missing parent of the document.
---
 readability.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index ffbd55c..4c696f1 100644
--- a/readability.go
+++ b/readability.go
@@ -1072,7 +1072,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var MINIMUM_TOPCANDIDATES = 3
 			if len(alternativeCandidateAncestors) >= MINIMUM_TOPCANDIDATES {
 				parentOfTopCandidate = topCandidate.ParentNode
-				for parentOfTopCandidate.TagName != "BODY" {
+				for parentOfTopCandidate != nil && parentOfTopCandidate.TagName != "BODY" {
 					var listsContainingThisAncestor = 0
 					for ancestorIndex := 0; ancestorIndex < len(alternativeCandidateAncestors) && listsContainingThisAncestor < MINIMUM_TOPCANDIDATES; ancestorIndex++ {
 						includes := slices.ContainsFunc(alternativeCandidateAncestors[ancestorIndex], func(n *Node) bool {
@@ -1104,7 +1104,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var lastScore = topCandidate.ReadabilityNode.ContentScore
 			// The scores shouldn't get too low.
 			var scoreThreshold = lastScore / 3
-			for parentOfTopCandidate.TagName != "BODY" {
+			for parentOfTopCandidate != nil && parentOfTopCandidate.TagName != "BODY" {
 				if parentOfTopCandidate.ReadabilityNode == nil {
 					parentOfTopCandidate = parentOfTopCandidate.ParentNode
 					continue
@@ -1126,7 +1126,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			// If the top candidate is the only child, use parent instead. This will help sibling
 			// joining logic when adjacent content is actually located in parent's sibling node.
 			parentOfTopCandidate = topCandidate.ParentNode
-			for parentOfTopCandidate.TagName != "BODY" && len(parentOfTopCandidate.Children) == 1 {
+			for parentOfTopCandidate.ParentNode != nil && parentOfTopCandidate.TagName != "BODY" && len(parentOfTopCandidate.Children) == 1 {
 				topCandidate = parentOfTopCandidate
 				parentOfTopCandidate = topCandidate.ParentNode
 			}
-- 
2.43.0


From b2b1cd2c4fbcaeda5878b83a72f7d8c1a4cb0adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:52 +0000
Subject: [PATCH 07/28] fix: do not recurse endlessly on empty text nodes

An empty CDATA section (or an empty text node) overflowed the stack: the text was
derived from the markup which in turn was derived from the text.
---
 domparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index a503681..e0fe066 100644
--- a/domparser.go
+++ b/domparser.go
@@ -627,8 +627,8 @@ func newText() *Node {
 }
 
 func (t *Node) getTextContentFromTextNode() string {
-	if t.textContent == "" {
-		decoded, err := decodeHTML(t.GetInnerHTML())
+	if t.textContent == "" && t.innerHTML != "" {
+		decoded, err := decodeHTML(t.innerHTML)
 		if err != nil {
 			slog.Error("cannot decode inner html", "err", err)
 			return ""
-- 
2.43.0


From e3e5f37aab644eebaf928e4d6582f158f0c922fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:53 +0000
Subject: [PATCH 08/28] fix: do not let raw text become markup in the
 serialized output

Text of raw text elements (title, xmp, ...) is not markup, but it was serialized verbatim,
so that <svg><title>a<script>..</script></title></svg> reintroduced a script.
---
 domparser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index e0fe066..d7cc07e 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1074,7 +1074,8 @@ loop:
 				txt := string(data)
 
 				if c != '<' {
-					textNode.SetInnerHTML(txt)
+					// a raw text token is not markup (e.g. inside of <title>): any '<' in it must not open a tag
+					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
 					n.AppendChild(textNode)
 				} else if strings.HasPrefix(txt, "<![CDATA[") {
 					s := strings.Index(txt, "<![CDATA[")
-- 
2.43.0


From 30e2b534f14824d6f21bacaecad0012b5e814aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 09/28] fix: do not drop text starting with a '<' which does
 not open a tag

---
 domparser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index d7cc07e..3dc59a2 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1085,7 +1085,9 @@ loop:
 						n.AppendChild(textNode)
 					}
 				} else {
-					slog.Debug("unhandled text", slog.String("txt", txt))
+					// a '<' which does not open a tag is text
+					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
+					n.AppendChild(textNode)
 				}
 			}
 
-- 
2.43.0


From 8848d7b2b01fc6a50316431b4c29d79ecac9b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:55 +0000
Subject: [PATCH 10/28] fix: match <object> elements by their upper-case tag
 name

Tag names are upper-case, so the video check on the content of <object> was dead code.
---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index 4c696f1..1a808a8 100644
--- a/readability.go
+++ b/readability.go
@@ -1785,7 +1785,7 @@ func (r *Readability) clean(e *Node, tag string) {
 			}
 
 			// For embed with <object> tag, check inner HTML as well.
-			if element.TagName == "object" && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
+			if element.TagName == "OBJECT" && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
 				return false
 			}
 		}
@@ -2077,7 +2077,7 @@ func (r *Readability) cleanConditionally(e *Node, tag string) {
 				}
 
 				// For embed with <object> tag, check inner HTML as well.
-				if embeds[i].TagName == "object" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
+				if embeds[i].TagName == "OBJECT" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
 					return false
 				}
 
-- 
2.43.0


From ce902eac72acaf3082b868d1b150687ce6ae0bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:56 +0000
Subject: [PATCH 11/28] fix: drop the first part of a title as intended

The replacement function returned its input unchanged.
---
 readability.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 1a808a8..8b01a21 100644
--- a/readability.go
+++ b/readability.go
@@ -453,9 +453,7 @@ func (r *Readability) getArticleTitle() string {
 		// If the resulting title is too short (3 words or fewer), remove
 		// the first part instead:
 		if wordCount(curTitle) < 3 {
-			curTitle = titleFirstPart.ReplaceAllStringFunc(origTitle, func(s string) string {
-				return s
-			})
+			curTitle = titleFirstPart.ReplaceAllString(origTitle, "$1")
 		}
 	} else if strings.Contains(curTitle, ": ") {
 		// Check if we have an heading containing this exact string, so we
-- 
2.43.0


From 234fdc5af9258f3907c4dc279ee96273b4f17ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:57 +0000
Subject: [PATCH 12/28] fix: close namespaced elements

The end tag </o:p> never matched an element opened by <o:p>, because it was compared
with the name stripped of its prefix.
---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 3dc59a2..4951f07 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1125,7 +1125,7 @@ loop:
 			}
 
 		case html.EndTagToken:
-			if n.LocalName == p.z.Token().Data {
+			if n.matchingTag == p.z.Token().Data {
 				break loop
 			}
 		}
-- 
2.43.0


From 8f4ca56b3f3267dd73e2c72d98c9ce299676f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:58 +0000
Subject: [PATCH 13/28] fix: recognize javascript: links regardless of case and
 surrounding white space

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 8b01a21..8bd6694 100644
--- a/readability.go
+++ b/readability.go
@@ -346,7 +346,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		if href != "" {
 			// Remove links with javascript: URIs, since
 			// they won't work after scripts have been removed from the page.
-			if strings.HasPrefix(href, "javascript:") {
+			if strings.HasPrefix(strings.ToLower(strings.TrimSpace(href)), "javascript:") {
 				// if the link only contains simple text content, it can be converted to a text node
 				if len(link.ChildNodes) == 1 && link.ChildNodes[0].NodeType == textNode {
 					var text = r.doc.createTextNode(link.GetTextContent())
-- 
2.43.0


From 23ad9cd1aabb86874a25c3af8331da3276ee9004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:59 +0000
Subject: [PATCH 14/28] fix: honour inline styles and the hidden attribute in
 the readerable check

The arguments of strings.Split were swapped, declarations were compared with
'display=none', and a valueless hidden attribute was ignored.
---
 readerable.go |  7 +++----
 util.go       | 21 +++++++++++++++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/readerable.go b/readerable.go
index 0b80443..c01469b 100644
--- a/readerable.go
+++ b/readerable.go
@@ -32,10 +32,9 @@ import (
 
 func isNodeVisible(node *html.Node) bool {
 	// Have to null-check node.style and node.className.indexOf to deal with SVG and MathML nodes.
-	style := attr(node, "style")
-	return (style == "" || !slices.Contains(strings.Split(";", style), "display=none")) &&
-		(style == "" || !slices.Contains(strings.Split(";", style), "visibility=hidden")) &&
-		attr(node, "hidden") == "" &&
+	return !hasInlineStyle(node, "display", "none") &&
+		!hasInlineStyle(node, "visibility", "hidden") &&
+		!hasAttr(node, "hidden") &&
 		(attr(node, "aria-hidden") == "" || attr(node, "aria-hidden") != "true" || (attr(node, "class") != "" && strings.Contains(attr(node, "class"), "fallback-image")))
 }
 
diff --git a/util.go b/util.go
index 4e0cbe5..9e9363d 100644
--- a/util.go
+++ b/util.go
@@ -3,6 +3,7 @@ package readability
 import (
 	"bytes"
 	"slices"
+	"strings"
 
 	"github.com/andybalholm/cascadia"
 	"golang.org/x/net/html"
@@ -60,6 +61,26 @@ func attr(n *html.Node, attrName string) string {
 	return ""
 }
 
+func hasAttr(n *html.Node, attrName string) bool {
+	for _, a := range n.Attr {
+		if a.Key == attrName {
+			return true
+		}
+	}
+	return false
+}
+
+// hasInlineStyle reports whether the style attribute of n declares the given property with the given value.
+func hasInlineStyle(n *html.Node, property, value string) bool {
+	for _, declaration := range strings.Split(attr(n, "style"), ";") {
+		name, val, _ := strings.Cut(declaration, ":")
+		if strings.TrimSpace(name) == property && strings.TrimSpace(val) == value {
+			return true
+		}
+	}
+	return false
+}
+
 func textContent(n *html.Node) string {
 	var buf bytes.Buffer
 
-- 
2.43.0


From cc54d0a54c4f2c78384ee6e29aad65a4209ae0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:00 +0000
Subject: [PATCH 15/28] fix: test the node itself against the selector in the
 readerable check

The selector was matched against the descendants of the node, so that paragraphs
of list items were never skipped.
---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 9e9363d..c2c0899 100644
--- a/util.go
+++ b/util.go
@@ -49,7 +49,7 @@ func matches(n *html.Node, query string) bool {
 	if err != nil {
 		return false
 	}
-	return cascadia.Query(n, sel) != nil
+	return sel.Match(n)
 }
 
 func attr(n *html.Node, attrName string) string {
-- 
2.43.0


From 167f344fabdf53ee7efb1d760d8706849ddbd9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:01 +0000
Subject: [PATCH 16/28] fix: clear sibling relations of children replaced by
 SetInnerHTML and SetTextContent

---
 domparser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index 4951f07..d101bb2 100644
--- a/domparser.go
+++ b/domparser.go
@@ -445,6 +445,13 @@ func (n *Node) AppendChild(child *Node) {
 	child.ParentNode = n
 }
 
+// detach clears all the relations of a node with its former parent and siblings.
+func (n *Node) detach() {
+	n.ParentNode = nil
+	n.PreviousSibling, n.NextSibling = nil, nil
+	n.PreviousElementSibling, n.NextElementSibling = nil, nil
+}
+
 func (n *Node) RemoveChild(child *Node) (*Node, error) {
 	childNodes := n.ChildNodes
 	childIndex := indexOf(child, childNodes)
@@ -943,7 +950,7 @@ func (n *Node) SetInnerHTML(html string) {
 		var parser = newDOMParser()
 		var node = parser.parse(html, "")
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].detach()
 		}
 		n.ChildNodes = node.ChildNodes
 		n.Children = node.Children
@@ -963,7 +970,7 @@ func (n *Node) SetTextContent(text string) {
 	} else if n.NodeType == elementNode {
 		// clear parentNodes for existing children
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].detach()
 		}
 
 		var t = newText()
-- 
2.43.0


From 19b5dd45f11e02bcd3a037e5a9beceefd222277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:02 +0000
Subject: [PATCH 17/28] fix: keep the child list consistent when replacing a
 node by one of its siblings

The index of the replaced node was computed before the new node left the same list.
---
 domparser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domparser.go b/domparser.go
index d101bb2..490c323 100644
--- a/domparser.go
+++ b/domparser.go
@@ -493,12 +493,17 @@ func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 	childIndex := indexOf(oldNode, childNodes)
 	if childIndex == -1 {
 		panic("removeChild: node not found")
+	} else if newNode == oldNode {
+		return oldNode
 	} else {
 		// This will take care of updating the new node if it was somewhere else before:
 		if newNode.ParentNode != nil {
 			if _, err := newNode.ParentNode.RemoveChild(newNode); err != nil {
 				slog.Error("cannot remove child", slog.String("err", err.Error()))
 			}
+			// the removal might have shifted the children of this node
+			childNodes = n.ChildNodes
+			childIndex = indexOf(oldNode, childNodes)
 		}
 		childNodes[childIndex] = newNode
 
-- 
2.43.0


From 63312f1de51e4498eeafcfb7c9296e04a6ff894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:41 +0000
Subject: [PATCH 18/28] fix: do not panic when the root element was detached by
 an earlier attempt

<html hidden><body>short</body></html> removed the root in the first attempt, and the
next ones dereferenced its missing parent.
---
 readability.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 8bd6694..09c9066 100644
--- a/readability.go
+++ b/readability.go
@@ -718,6 +718,10 @@ func (r *Readability) initializeNode(n *Node) {
 
 func (r *Readability) removeAndGetNext(n *Node) *Node {
 	var nextNode = r.getNextNode(n, true)
+	if n.ParentNode == nil {
+		// already removed, e.g. a hidden root element met again by a later attempt
+		return nextNode
+	}
 	if _, err := n.ParentNode.RemoveChild(n); err != nil {
 		slog.Error("cannot remove child", slog.String("err", err.Error()))
 	}
@@ -931,7 +935,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				// element. DIVs with only a P element inside and no text content can be
 				// safely converted into plain P elements to avoid confusing the scoring
 				// algorithm with DIVs with are, in practice, paragraphs.
-				if r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
+				if n.ParentNode != nil && r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
 					n = newNode
-- 
2.43.0


From a4665bf1905c6ff92cc1fafde02feb9ec33a9684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:41 +0000
Subject: [PATCH 19/28] fix: count each div with line breaks once in the
 readerable check

---
 readerable.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/readerable.go b/readerable.go
index c01469b..f698d25 100644
--- a/readerable.go
+++ b/readerable.go
@@ -67,7 +67,9 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 	if len(brNodes) != 0 {
 		var set []*html.Node
 		for _, n := range brNodes {
-			set = append(set, n.Parent)
+			if !slices.Contains(set, n.Parent) {
+				set = append(set, n.Parent)
+			}
 		}
 		nodes = append(nodes, set...)
 	}
-- 
2.43.0


From f8e6726e9a1733ee670b51ad6978e5696c6059a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:51 +0000
Subject: [PATCH 20/28] fix: trim the JSON-LD title when name and headline
 differ

---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index 09c9066..cb36397 100644
--- a/readability.go
+++ b/readability.go
@@ -1375,9 +1375,9 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				var headlineMatchs = r.textSimilarity(headline.(string), title) > 0.75
 
 				if headlineMatchs && !nameMatches {
-					meta.title = headline.(string)
+					meta.title = strings.TrimSpace(headline.(string))
 				} else {
-					meta.title = name.(string)
+					meta.title = strings.TrimSpace(name.(string))
 				}
 			} else if _, ok := name.(string); ok {
 				meta.title = strings.TrimSpace(name.(string))
-- 
2.43.0


From 3470af32e05689aae1c7969b336207b6e8be8fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:42 +0000
Subject: [PATCH 21/28] fix: decode character references only once

---
 domparser.go | 41 ++++++++++++++++++++---------------------
 regexps.go   |  3 +--
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/domparser.go b/domparser.go
index 490c323..a219a92 100644
--- a/domparser.go
+++ b/domparser.go
@@ -73,28 +73,27 @@ func encodeHTML(text string) string {
 
 func decodeHTML(s string) (string, error) {
 
-	s = entityReferencesRgx.ReplaceAllStringFunc(s, func(s string) string {
-		return string([]rune(entityReplacer.Replace(s))[1])
-	})
-
-	submatches := htmlCharCodesRgx.FindAllStringSubmatch(s, -1)
-	for _, submatch := range submatches {
-		if len(submatch) == 3 {
-			hex, dec := submatch[1], submatch[2]
-			if hex != "" {
-				codePoint, err := strconv.ParseInt(hex, 16, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			} else if dec != "" {
-				codePoint, err := strconv.ParseInt(dec, 10, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			}
+	var err error
+	// a single pass: what a reference stands for is not decoded again
+	s = charReferencesRgx.ReplaceAllStringFunc(s, func(ref string) string {
+		submatch := charReferencesRgx.FindStringSubmatch(ref)
+		name, hex, dec := submatch[1], submatch[2], submatch[3]
+		if name != "" {
+			return entityReplacer.Replace(name)
+		}
+		digits, base := dec, 10
+		if hex != "" {
+			digits, base = hex, 16
 		}
+		codePoint, parseErr := strconv.ParseInt(digits, base, 64)
+		if parseErr != nil {
+			err = parseErr
+			return ref
+		}
+		return string(rune(codePoint))
+	})
+	if err != nil {
+		return "", err
 	}
 	return s, nil
 }
diff --git a/regexps.go b/regexps.go
index 1a2112e..a3412a8 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,8 +36,7 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	entityReferencesRgx  = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
-	htmlCharCodesRgx     = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
+	charReferencesRgx    = regexp.MustCompile(`&(?:(quot|amp|apos|lt|gt)|#(?:[xX]([0-9a-fA-F]{1,4})|([0-9]{1,5})));`)
 	doubleForwardSlashes = regexp.MustCompile(`//[^/]+`)
 	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
 	dotSpaceOrDollar     = regexp.MustCompile(`\.( |$)`)
-- 
2.43.0


From 4c6cab700f3ebcfbc36ec7768776ca10a0effac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:45 +0000
Subject: [PATCH 22/28] fix: a table's caption, or a table nested in it,
 settles whether it is a data table

---
 readability.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readability.go b/readability.go
index cb36397..c73929d 100644
--- a/readability.go
+++ b/readability.go
@@ -1886,6 +1886,7 @@ func (r *Readability) markDataTables(root *Node) {
 
 		if captions := table.getElementsByTagName("caption"); len(captions) > 0 && captions[0] != nil && len(captions[0].ChildNodes) > 0 {
 			table.ReadabilityDataTable = &readabilityDataTable{value: true}
+			continue
 		}
 
 		// If the table has a descendant with any of these tags, consider a data table:
@@ -1904,6 +1905,7 @@ func (r *Readability) markDataTables(root *Node) {
 		// Nested tables indicate a layout table:
 		if tables := table.getElementsByTagName("table"); len(tables) > 0 && tables[0] != nil {
 			table.ReadabilityDataTable = &readabilityDataTable{value: false}
+			continue
 		}
 
 		var rows, columns = r.getRowAndColumnCount(table)
-- 
2.43.0


From 857c77cfe6cb1a1278396b8f81a2cf5e19ca5b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:46 +0000
Subject: [PATCH 23/28] fix: keep the text of unterminated CDATA sections and
 the text following a section

---
 domparser.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/domparser.go b/domparser.go
index a219a92..3f7e560 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1089,12 +1089,10 @@ loop:
 					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
 					n.AppendChild(textNode)
 				} else if strings.HasPrefix(txt, "<![CDATA[") {
-					s := strings.Index(txt, "<![CDATA[")
-					e := strings.Index(txt, "]]>")
-					if s != -1 && e != -1 {
-						textNode.SetTextContent(txt[s+len("<![CDATA[") : e])
-						n.AppendChild(textNode)
-					}
+					// an unterminated section extends to the end of the token
+					section, rest, _ := strings.Cut(strings.TrimPrefix(txt, "<![CDATA["), "]]>")
+					textNode.SetTextContent(section + rest)
+					n.AppendChild(textNode)
 				} else {
 					// a '<' which does not open a tag is text
 					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
-- 
2.43.0


From 42f8eda027066de2cb0a201270c86a57fe314086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:47 +0000
Subject: [PATCH 24/28] fix: check a paragraph which takes the place of its div
 for visibility and bylines too

---
 readability.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index c73929d..7f08d17 100644
--- a/readability.go
+++ b/readability.go
@@ -938,8 +938,9 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				if n.ParentNode != nil && r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
+					// the paragraph itself has still to be checked (and scored)
 					n = newNode
-					elementsToScore = append(elementsToScore, n)
+					continue
 				} else if !r.hasChildBlockElement(n) {
 					n = r.setNodeTag(n, "P")
 					elementsToScore = append(elementsToScore, n)
-- 
2.43.0


From a31fa881e3c786e34594b23eab26be2db1d37e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:40 +0000
Subject: [PATCH 25/28] fix: keep the slashes before the host of links other
 than http

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 7f08d17..20dfb24 100644
--- a/readability.go
+++ b/readability.go
@@ -286,7 +286,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		var abs string
 		if u.Scheme != "" {
 			abs += u.Scheme
-			if strings.HasPrefix(u.Scheme, "http") {
+			if strings.HasPrefix(u.Scheme, "http") || (u.Opaque == "" && !u.OmitHost) {
 				abs += "://"
 			} else {
 				abs += ":"
-- 
2.43.0


From 68ea68d6783adfba89ea982665ee61cc9bdba3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:40 +0000
Subject: [PATCH 26/28] fix: keep the user information of links

---
 readability.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/readability.go b/readability.go
index 20dfb24..1f8c991 100644
--- a/readability.go
+++ b/readability.go
@@ -292,6 +292,9 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 				abs += ":"
 			}
 		}
+		if u.User != nil {
+			abs += u.User.String() + "@"
+		}
 		abs += strings.ToLower(u.Host)
 
 		var b, a string
-- 
2.43.0


From b8577218329ce286185d16cb0d6486d6ebcd3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:40 +0000
Subject: [PATCH 27/28] fix: resolve links with escape sequences against the
 base URI

---
 readability.go | 29 +++++++----------------------
 regexps.go     | 11 +++++------
 2 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/readability.go b/readability.go
index 1f8c991..fcf0c5b 100644
--- a/readability.go
+++ b/readability.go
@@ -297,28 +297,13 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		}
 		abs += strings.ToLower(u.Host)
 
-		var b, a string
-		if strings.Contains(uri, "?") {
-			before, _, _ := strings.Cut(uri, "?")
-			b = before
-		} else if strings.Contains(uri, "#") {
-			before, after, _ := strings.Cut(uri, "#")
-			b = before
-			a = after
-		} else {
-			b = uri
-		}
-
 		if u.Path != "" {
-			p := u.Path
-			if strings.Contains(uri, "%") {
-				if strings.HasPrefix(uri, "//") {
-					p = doubleForwardSlashes.ReplaceAllString(b, "")
-				} else {
-					p = strings.ReplaceAll(b, abs, "")
-				}
+			p := strings.ReplaceAll(u.Path, "/C|/", "/C:/")
+			if strings.Contains(uri, "%") || strings.Contains(baseURI, "%") {
+				// keep the escape sequences
+				p = strings.ReplaceAll(u.EscapedPath(), "/C%7C/", "/C:/")
 			}
-			abs += strings.ReplaceAll(p, "/C|/", "/C:/")
+			abs += p
 		} else if u.Opaque != "" {
 			abs += u.Opaque
 		} else {
@@ -328,8 +313,8 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 			abs += "?" + u.RawQuery
 		}
 		if u.Fragment != "" {
-			if strings.Contains(a, "%") {
-				abs += "#" + a
+			if strings.Contains(uri, "%") {
+				abs += "#" + u.EscapedFragment()
 			} else {
 				abs += "#" + u.Fragment
 			}
diff --git a/regexps.go b/regexps.go
index a3412a8..d3eb98f 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,12 +36,11 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	charReferencesRgx    = regexp.MustCompile(`&(?:(quot|amp|apos|lt|gt)|#(?:[xX]([0-9a-fA-F]{1,4})|([0-9]{1,5})));`)
-	doubleForwardSlashes = regexp.MustCompile(`//[^/]+`)
-	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
-	dotSpaceOrDollar     = regexp.MustCompile(`\.( |$)`)
-	cdata                = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
-	schemaUrl            = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
+	charReferencesRgx = regexp.MustCompile(`&(?:(quot|amp|apos|lt|gt)|#(?:[xX]([0-9a-fA-F]{1,4})|([0-9]{1,5})));`)
+	separators        = regexp.MustCompile(`[\|\-\\\/>»]+`)
+	dotSpaceOrDollar  = regexp.MustCompile(`\.( |$)`)
+	cdata             = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
+	schemaUrl         = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
 	// property is a space-separated list of values
 	propertyPattern = regexp.MustCompile(`(?i)\s*(article|dc|dcterm|og|twitter)\s*:\s*(author|creator|description|published_time|title|site_name)\s*`)
 	// name is a single value
-- 
2.43.0


From af4e4876e0d5920e8761d6d20c307ffddd522e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:26 +0000
Subject: [PATCH 28/28] fix: compare characters, not bytes, of an article with
 the character threshold

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index fcf0c5b..6e66c4c 100644
--- a/readability.go
+++ b/readability.go
@@ -1223,7 +1223,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// grabArticle with different flags set. This gives us a higher likelihood of
 		// finding the content, and the sieve approach gives us a higher likelihood of
 		// finding the -right- content.
-		var textLength = len(r.getInnerText(articleContent, true))
+		var textLength = len([]rune(r.getInnerText(articleContent, true)))
 		if textLength < r.options.charThreshold {
 			parseSuccessful = false
 			page.SetInnerHTML(pageCacheHtml)
-- 
2.43.0

