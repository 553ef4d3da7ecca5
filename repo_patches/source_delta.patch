From cb9e8619a06087f80c544d3e39cc765d679d6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 01/74] fix: accept blanks before '>' in end tags

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index a11dde6..0217012 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -896,6 +896,7 @@ func (ctx *parserCtx) parseEndTag() error {
 			return ctx.error(errors.New("expected end tag '" + e.Name() + "'"))
 		}
 
+		ctx.skipBlanks()
 		if cur.Peek() != '>' {
 			return ctx.error(ErrGtRequired)
 		}
-- 
2.43.0


From 24e1beeb515f6ecce24f30e68c6a1f296decc278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 02/74] fix: reject attributes without '=' or without a
 properly quoted value

---
 parserctx.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 0217012..e5c3ce2 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -923,9 +923,9 @@ func (ctx *parserCtx) parseAttributeValue(normalize bool) (value string, entitie
 		defer g.IRelease("END parseAttributeValue")
 	}
 
-	ctx.parseQuotedText(func(qch rune) (string, error) {
-		value, entities, err = ctx.parseAttributeValueInternal(qch, normalize)
-		return "", nil
+	value, err = ctx.parseQuotedText(func(qch rune) (v string, err error) {
+		v, entities, err = ctx.parseAttributeValueInternal(qch, normalize)
+		return
 	})
 	return
 }
@@ -1066,6 +1066,7 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 	if cur.Peek() != '=' {
 		err = ctx.error(ErrEqualSignRequired)
+		return
 	}
 	cur.Advance(1)
 	ctx.skipBlanks()
-- 
2.43.0


From 227ae99532d0e9867753939b5387af5c4a32cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 03/74] fix: require blanks between attributes, do not report
 xmlns as an attribute

---
 parserctx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index e5c3ce2..2a27c95 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -726,7 +726,7 @@ func (ctx *parserCtx) parseStartTag() error {
 	nbNs := 0
 	attrs := []sax.Attribute{}
 	for ctx.instate != psEOF {
-		ctx.skipBlanks()
+		sawBlanks := ctx.skipBlanks()
 		if cur.Peek() == '>' {
 			cur.Advance(1)
 			break
@@ -735,6 +735,9 @@ func (ctx *parserCtx) parseStartTag() error {
 		if cur.Peek() == '/' && cur.PeekN(2) == '>' {
 			break
 		}
+		if !sawBlanks {
+			return ctx.error(ErrSpaceRequired)
+		}
 		attname, aprefix, attvalue, err := ctx.parseAttribute(local)
 		if err != nil {
 			return ctx.error(err)
@@ -752,7 +755,7 @@ func (ctx *parserCtx) parseStartTag() error {
 			if !isBlankCh(cur.Peek()) {
 				return ctx.error(ErrSpaceRequired)
 			}
-			ctx.skipBlanks()
+			continue
 		} else if aprefix == XMLNsPrefix {
 			var u *url.URL // predeclare, so we can use goto SkipNS
 
@@ -798,7 +801,6 @@ func (ctx *parserCtx) parseStartTag() error {
 			if !isBlankCh(cur.Peek()) {
 				return ctx.error(ErrSpaceRequired)
 			}
-			ctx.skipBlanks()
 			// ctx.input.base != base || inputNr != ctx.inputNr; goto base_changed
 			continue
 		}
-- 
2.43.0


From 5bd5fa5827183db408da3dd51a4d42049aa5e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 04/74] fix: scope namespace declarations to their element,
 allow redeclaration

---
 parserctx.go | 20 +++++++++++++++++++-
 stack.go     |  4 +++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 2a27c95..a108aff 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -51,6 +51,17 @@ func (ctx *parserCtx) pushNS(prefix, uri string) {
 	ctx.nsTab.Push(prefix, uri)
 }
 
+// isNSDeclared returns true if one of the last n namespaces (i.e. those
+// of the start tag being parsed) is for the given prefix
+func (ctx *parserCtx) isNSDeclared(prefix string, n int) bool {
+	for _, ns := range ctx.nsTab.Peek(n) {
+		if n > 0 && ns.Key() == prefix {
+			return true
+		}
+	}
+	return false
+}
+
 const (
 	cbEntityDecl = iota
 	cbGetParameterEntity
@@ -670,6 +681,10 @@ func (ctx *parserCtx) parseElement() error {
 		defer g.IRelease("END parseElement (%d)", i)
 	}
 
+	// namespaces declared by this element go out of scope when it ends
+	nsLen := ctx.nsTab.Len()
+	defer func() { ctx.nsTab.Pop(ctx.nsTab.Len() - nsLen) }()
+
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
 	// be bar</foo>. Given <foo />, the next token would
@@ -745,6 +760,9 @@ func (ctx *parserCtx) parseStartTag() error {
 
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
+			if ctx.isNSDeclared("", nbNs) {
+				return ctx.error(errors.New("duplicate attribute is not allowed"))
+			}
 			ctx.pushNS("", attvalue)
 			nbNs++
 			//    SkipDefaultNS:
@@ -787,7 +805,7 @@ func (ctx *parserCtx) parseStartTag() error {
 				return ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
 			}
 
-			if ctx.nsTab.Lookup(attname) != "" {
+			if ctx.isNSDeclared(attname, nbNs) {
 				return ctx.error(errors.New("duplicate attribute is not allowed"))
 			}
 			ctx.pushNS(attname, attvalue)
diff --git a/stack.go b/stack.go
index 6d57cf8..c94f6cc 100644
--- a/stack.go
+++ b/stack.go
@@ -37,8 +37,10 @@ func newNsStack() nsStack {
 	return nsStack{}
 }
 
+// Push adds a namespace binding. An inner declaration may hide an outer
+// one, so unlike UniqueStack.Push this accepts prefixes already bound
 func (s *nsStack) Push(prefix, uri string) {
-	s.UniqueStack.Push(nsStackItem{prefix: prefix, href: uri})
+	s.UniqueStack = append(s.UniqueStack, nsStackItem{prefix: prefix, href: uri})
 }
 
 func (s *nsStack) Lookup(prefix string) string {
-- 
2.43.0


From 675cc8f9532b7163217e88fb78c70084daaf0716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 05/74] fix: the xml prefix is bound without being declared

---
 parserctx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index a108aff..346d2dc 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -151,6 +151,9 @@ func (ctx *parserCtx) popNode() (elem *Element) {
 }
 
 func (ctx *parserCtx) lookupNamespace(prefix string) string {
+	if prefix == XMLPrefix {
+		return XMLNamespace
+	}
 	return ctx.nsTab.Lookup(prefix)
 }
 
-- 
2.43.0


From 243166d91c4e83a7d7005ebcb73f5138d343b15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 06/74] fix: reject duplicate attributes and attributes with an
 undeclared prefix

---
 parserctx.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 346d2dc..7a5593c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -869,6 +869,29 @@ func (ctx *parserCtx) parseStartTag() error {
 		elem.SetNamespace(prefix, nsuri, true)
 	}
 
+	// attribute names must be unique, both as written and once their
+	// prefixes (which must be declared) are resolved
+	seen := map[string]struct{}{}
+	for _, attr := range attrs {
+		key := attr.Name()
+		if _, ok := seen[key]; ok {
+			return ctx.error(ErrDuplicateAttribute)
+		}
+		seen[key] = struct{}{}
+		if attr.Prefix() == "" {
+			continue
+		}
+		uri := ctx.lookupNamespace(attr.Prefix())
+		if uri == "" {
+			return ctx.error(errors.New("namespace '" + attr.Prefix() + "' not found"))
+		}
+		key = "{" + uri + "}" + attr.LocalName()
+		if _, ok := seen[key]; ok {
+			return ctx.error(ErrDuplicateAttribute)
+		}
+		seen[key] = struct{}{}
+	}
+
 	if s := ctx.sax; s != nil {
 		var nslist []sax.Namespace
 		if nbNs > 0 {
-- 
2.43.0


From b9040a49b5cb8858d6764d7a555a8fa01bd7dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 07/74] fix: reserved namespace names cannot be bound to other
 prefixes

---
 parserctx.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 7a5593c..c920fd5 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -766,6 +766,9 @@ func (ctx *parserCtx) parseStartTag() error {
 			if ctx.isNSDeclared("", nbNs) {
 				return ctx.error(errors.New("duplicate attribute is not allowed"))
 			}
+			if attvalue == XMLNamespace || attvalue == "http://www.w3.org/2000/xmlns/" {
+				return ctx.error(errors.New("reserved namespace cannot be the default namespace"))
+			}
 			ctx.pushNS("", attvalue)
 			nbNs++
 			//    SkipDefaultNS:
@@ -795,6 +798,9 @@ func (ctx *parserCtx) parseStartTag() error {
 			if attvalue == "http://www.w3.org/2000/xmlns/" {
 				return ctx.error(errors.New("reuse of the xmlns namespace name if forbidden"))
 			}
+			if attvalue == XMLNamespace {
+				return ctx.error(errors.New("xml namespace URI mapped to wrong prefix"))
+			}
 
 			if attvalue == "" {
 				return ctx.error(fmt.Errorf("xmlns:%s: Empty XML namespace is not allowed", attname))
-- 
2.43.0


From 956a864d722b5aad0e830988eca1ab34f0052410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 08/74] fix: report attribute defaults under their name, in
 order, unless specified

---
 parser_interface.go |  2 +-
 parserctx.go        | 38 +++++++++++++++++---------------------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/parser_interface.go b/parser_interface.go
index 9f36949..0f4995e 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -131,7 +131,7 @@ type parserCtx struct {
 	extSubURI         string
 	version           string
 	attsSpecial       map[string]AttributeType
-	attsDefault       map[string]map[string]*Attribute
+	attsDefault       map[string][]*attrData
 	valid             bool
 	hasPERefs         bool
 	pedantic          bool
diff --git a/parserctx.go b/parserctx.go
index c920fd5..8d450c5 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -217,7 +217,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.userData = ctx // circular dep?!
 	ctx.standalone = StandaloneImplicitNo
 	ctx.attsSpecial = map[string]AttributeType{}
-	ctx.attsDefault = map[string]map[string]*Attribute{}
+	ctx.attsDefault = map[string][]*attrData{}
 	ctx.wellFormed = true
 	if p != nil {
 		ctx.sax = p.sax
@@ -858,7 +858,15 @@ func (ctx *parserCtx) parseStartTag() error {
 		}
 		defaults, ok := ctx.lookupAttributeDefault(elemName)
 		if ok {
+			specified := len(attrs)
+		DEFAULTS:
 			for _, attr := range defaults {
+				// a specified attribute overrides its default
+				for _, a := range attrs[:specified] {
+					if a.Name() == attr.Name() {
+						continue DEFAULTS
+					}
+				}
 				attrs = append(attrs, attr)
 			}
 		}
@@ -3828,15 +3836,6 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 		return
 	}
 
-	// XXX seems like when your language has a map, you can do just
-	// kinda do away with a bunch of stuff..  See xmlAddDefAttrs for
-	// details of what the original code is doing
-	m, ok := ctx.attsDefault[elemName]
-	if !ok {
-		m = map[string]*Attribute{}
-		ctx.attsDefault[elemName] = m
-	}
-
 	var prefix string
 	var local string
 	if i := strings.IndexByte(attrName, ':'); i > -1 {
@@ -3846,15 +3845,12 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 		local = attrName
 	}
 
-	uri := ctx.lookupNamespace(prefix)
-	attr, err := ctx.doc.CreateAttribute(local, defaultValue, newNamespace(prefix, uri))
-	if err != nil {
-		// XXX Unhandled?!
-		return
-	}
-
-	attr.SetDefault(true)
-	m[attrName] = attr
+	ctx.attsDefault[elemName] = append(ctx.attsDefault[elemName], &attrData{
+		localname: local,
+		prefix:    prefix,
+		value:     defaultValue,
+		isDefault: true,
+	})
 
 	/*
 	   	hmm, let's think about this when the time comes
@@ -3865,7 +3861,7 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 	*/
 }
 
-func (ctx *parserCtx) lookupAttributeDefault(elemName string) (map[string]*Attribute, bool) {
+func (ctx *parserCtx) lookupAttributeDefault(elemName string) ([]*attrData, bool) {
 	v, ok := ctx.attsDefault[elemName]
 	return v, ok
 }
@@ -3957,7 +3953,7 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 			}
 		}
 
-		if defvalue != "" && def != AttrDefaultImplied && def != AttrDefaultRequired {
+		if def == AttrDefaultNone || def == AttrDefaultFixed {
 			ctx.addAttributeDefault(elemName, attrName, defvalue)
 		}
 
-- 
2.43.0


From 6a4171e715b8d5608f94b4e1f36f4c3d463e0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 09/74] fix: attribute types apply to the full element and
 attribute names

---
 parserctx.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 8d450c5..a545bc2 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -741,6 +741,12 @@ func (ctx *parserCtx) parseStartTag() error {
 		return ctx.error(err)
 	}
 
+	// declarations in the DTD are for the name as written
+	elemName := local
+	if prefix != "" {
+		elemName = prefix + ":" + local
+	}
+
 	nbNs := 0
 	attrs := []sax.Attribute{}
 	for ctx.instate != psEOF {
@@ -756,7 +762,7 @@ func (ctx *parserCtx) parseStartTag() error {
 		if !sawBlanks {
 			return ctx.error(ErrSpaceRequired)
 		}
-		attname, aprefix, attvalue, err := ctx.parseAttribute(local)
+		attname, aprefix, attvalue, err := ctx.parseAttribute(elemName)
 		if err != nil {
 			return ctx.error(err)
 		}
@@ -846,12 +852,6 @@ func (ctx *parserCtx) parseStartTag() error {
 	// attributes defaulting
 	// XXX Punting a lot of stuff here. See xmlParseStartTag2
 	if len(ctx.attsDefault) > 0 {
-		var elemName string
-		if prefix != "" {
-			elemName = prefix + ":" + local
-		} else {
-			elemName = local
-		}
 
 		if pdebug.Enabled {
 			pdebug.Printf("-------> %s", elemName)
@@ -1111,7 +1111,11 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 
 	normalize := false
-	attType, ok := ctx.lookupSpecialAttribute(elemName, l)
+	attrName := l
+	if p != "" {
+		attrName = p + ":" + l
+	}
+	attType, ok := ctx.lookupSpecialAttribute(elemName, attrName)
 	if pdebug.Enabled {
 		pdebug.Printf("looked up attribute %s:%s -> %d (%t)", elemName, l, attType, ok)
 	}
@@ -3702,16 +3706,20 @@ func (ctx *parserCtx) cleanSpecialAttributes() {
 }
 
 func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ AttributeType) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START addSpecialAttribute(%s, %d)", key, typ)
 		defer g.IRelease("END addSpecialAttribute")
 	}
+	// the first declaration is binding
+	if _, ok := ctx.attsSpecial[key]; ok {
+		return
+	}
 	ctx.attsSpecial[key] = typ
 }
 
 func (ctx *parserCtx) lookupSpecialAttribute(elemName, attrName string) (AttributeType, bool) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START lookupSpecialAttribute(%s)", key)
 		defer g.IRelease("END lookupSpecialAttribute")
-- 
2.43.0


From a6f097c03b95fbddaa3f0f050a59af7ee8d762c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 10/74] fix: a CR LF pair in an attribute value is one space

---
 parserctx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index a545bc2..b7f9786 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1067,6 +1067,10 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 				}
 			}
 		case 0x20, 0xD, 0xA, 0x9:
+			if c == 0xD && cur.PeekN(2) == 0xA {
+				// a CR LF pair is a single line end
+				cur.Advance(1)
+			}
 			if b.Len() > 0 || !normalize {
 				if !normalize || !inSpace {
 					b.WriteRune(0x20)
-- 
2.43.0


From fb34483c87cfeddd71654f98b1007b4f719db9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 11/74] fix: do not panic when normalizing an all blank
 attribute value

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index b7f9786..ed8a9e6 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3683,7 +3683,7 @@ func (ctx *parserCtx) attrNormalizeSpace(s string) (value string) {
 		out = append(out, 0x20) // append a single space
 	}
 
-	if out[len(out)-1] == 0x20 {
+	if len(out) > 0 && out[len(out)-1] == 0x20 {
 		out = out[:len(out)-1]
 	}
 	value = string(out)
-- 
2.43.0


From 79df6ffba28f6ec49a36e17a28d555d0dd1c4b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 12/74] fix: character references need digits, a semicolon and
 a value in range

---
 parserctx.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index ed8a9e6..8672b1c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4487,6 +4487,13 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 	width += 2
 	s = s[2:]
 
+	// make sure that the loop below terminates
+	if i := bytes.IndexByte(s, ';'); i < 1 || (s[0] == 'x' && i < 2) {
+		err = ErrSemicolonRequired
+		width = 0
+		return
+	}
+
 	var accumulator func(int32, rune) (int32, error)
 	if s[0] == 'x' {
 		s = s[1:]
@@ -4817,6 +4824,10 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 		panic("did not get rune cursor")
 	}
 	if cur.ConsumeString("&#x") {
+		if cur.Peek() == ';' {
+			err = errors.New("invalid hex CharRef")
+			return
+		}
 		for c := cur.Peek(); !cur.Done() && c != ';'; c = cur.Peek() {
 			if c >= '0' && c <= '9' {
 				val = val*16 + (c - '0')
@@ -4828,12 +4839,22 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 				err = errors.New("invalid hex CharRef")
 				return
 			}
+			if val > unicode.MaxRune {
+				err = errors.New("hex CharRef out of range")
+				return
+			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+		if cur.Peek() != ';' {
+			err = ErrSemicolonRequired
+			return
 		}
+		cur.Advance(1)
 	} else if cur.ConsumeString("&#") {
+		if cur.Peek() == ';' {
+			err = errors.New("invalid decimal CharRef")
+			return
+		}
 		for !cur.Done() && cur.Peek() != ';' {
 			c := cur.Peek()
 			if c >= '0' && c <= '9' {
@@ -4842,11 +4863,17 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 				err = errors.New("invalid decimal CharRef")
 				return
 			}
+			if val > unicode.MaxRune {
+				err = errors.New("decimal CharRef out of range")
+				return
+			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
+		if cur.Peek() != ';' {
+			err = ErrSemicolonRequired
+			return
 		}
+		cur.Advance(1)
 	} else {
 		err = errors.New("invalid char ref")
 		return
-- 
2.43.0


From d8eb7fbe1e503b523ffebb17b89f7f1f22fe2901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 13/74] fix: decode entity references within strings

---
 parserctx.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 8672b1c..dc2b32d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3009,6 +3009,11 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 			if err != nil {
 				return "", err
 			}
+			if ent == nil { // not an error, but there is nothing to include
+				s = s[width:]
+				continue
+			}
+
 			if err := ctx.entityCheck(ent, 0, 0); err != nil {
 				return "", err
 			}
@@ -3025,8 +3030,6 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 				}
 
 				out.WriteString(rep)
-			} else {
-				out.WriteString(ent.Name())
 			}
 			s = s[width:]
 		} else if s[0] == '%' && what&SubstitutePERef == SubstitutePERef {
@@ -4572,11 +4575,15 @@ func parseStringName(s []byte) (string, int, error) {
 // the rest of the processing to work.
 func (ctx *parserCtx) getEntity(name string) (*Entity, error) {
 	if ctx.inSubset == 0 {
-		if ret, err := resolvePredefinedEntity(name); err != nil {
+		if ret, err := resolvePredefinedEntity(name); err == nil {
 			return ret, nil
 		}
 	}
 
+	if ctx.doc == nil { // the handler does not build a document
+		return nil, nil
+	}
+
 	var ret *Entity
 	var ok bool
 	if ctx.doc == nil || ctx.doc.standalone != 1 {
@@ -4640,20 +4647,24 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 		return nil, 0, errors.New("invalid entity ref")
 	}
 
-	i := 0
+	s = s[1:]
+	i := 1
 	name, width, err := parseStringName(s)
 	if err != nil {
 		return nil, 0, errors.New("failed to parse name")
 	}
 	s = s[width:]
 	i += width
-
 	if s[0] != ';' {
 		return nil, 0, ErrSemicolonRequired
 	}
 	s = s[1:]
 	i++
 
+	if ent, err := resolvePredefinedEntity(name); err == nil {
+		return ent, i, nil
+	}
+
 	var loadedEnt sax.Entity
 
 	/*
@@ -4667,10 +4678,13 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 			// next, but that's only when XML_PARSE_OLDSAX is enabled.
 			// we won't do that.
 			if ctx.wellFormed && ctx.userData == ctx {
-				loadedEnt, err = ctx.getEntity(name)
+				ent, err := ctx.getEntity(name)
 				if err != nil {
 					return nil, 0, err
 				}
+				if ent != nil {
+					loadedEnt = ent
+				}
 			}
 		}
 	}
@@ -4699,6 +4713,7 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
 			return nil, 0, fmt.Errorf("entity '%s' not defined", name)
 		}
+		return nil, i, nil
 		// xmlParserEntityCheck ?!
 	}
 
-- 
2.43.0


From 074e79ee97cb2d296812b85939359b84f6ef2740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 14/74] fix: reject malformed entity values

---
 parserctx.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index dc2b32d..6059679 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3004,7 +3004,19 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 			}
 			out.WriteRune(val)
 			s = s[width:] // advance
-		} else if s[0] == '&' && what&SubstituteRef == SubstituteRef {
+		} else if s[0] == '&' && what&SubstituteRef != SubstituteRef {
+			// bypassed, but it must be a reference
+			_, width, err := parseStringName(s[1:])
+			if err != nil {
+				return "", err
+			}
+			width++
+			if s[width] != ';' {
+				return "", ErrSemicolonRequired
+			}
+			out.Write(s[:width])
+			s = s[width:]
+		} else if s[0] == '&' {
 			ent, width, err := ctx.parseStringEntityRef(s)
 			if err != nil {
 				return "", err
@@ -3073,6 +3085,10 @@ func (ctx *parserCtx) parseEntityValue() (string, string, error) {
 	literal, err := ctx.parseQuotedText(func(qch rune) (string, error) {
 		return ctx.parseEntityValueInternal(qch)
 	})
+	if err != nil {
+		return "", "", ctx.error(err)
+	}
+
 
 	val, err := ctx.decodeEntities([]byte(literal), SubstitutePERef)
 	if err != nil {
@@ -3158,6 +3174,9 @@ func (ctx *parserCtx) parseEntityDecl() error {
 				pdebug.Printf("parseEntityDecl, isParameter = true, calling parseEntityValue")
 			}
 			literal, value, err = ctx.parseEntityValue()
+			if err != nil {
+				return ctx.error(err)
+			}
 			if pdebug.Enabled {
 				pdebug.Printf("entity declaration '%s' -> '%s'", name, value)
 			}
@@ -3205,6 +3224,9 @@ func (ctx *parserCtx) parseEntityDecl() error {
 		}
 		if c := cur.Peek(); c == '"' || c == '\'' {
 			literal, value, err = ctx.parseEntityValue()
+			if err != nil {
+				return ctx.error(err)
+			}
 			if err == nil {
 				if s := ctx.sax; s != nil {
 					switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
-- 
2.43.0


From a3235fba0215ac9fc54c2640cd89f05aee6f48d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 15/74] fix: accept character references to U+FFFD

---
 parserctx.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 6059679..ba9ee70 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4550,7 +4550,7 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 	}
 
 	r = rune(val)
-	if !isChar(val) {
+	if !isChar(val) && val != utf8.RuneError {
 		return utf8.RuneError, 0, fmt.Errorf("invalid XML char value %d", val)
 	}
 	return
@@ -4916,7 +4916,9 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 		return
 	}
 
-	if isChar(val) && val <= unicode.MaxRune {
+	// U+FFFD is a character, though isChar uses it to detect the end
+	// of the input
+	if (isChar(val) || val == utf8.RuneError) && val <= unicode.MaxRune {
 		r = rune(val)
 		return
 	}
-- 
2.43.0


From 372e38c00749e20cbb9fb77d7fc71de32381b59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 16/74] fix: undeclared entities are errors, and do not panic
 when they are not

---
 parserctx.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index ba9ee70..f9f4d88 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1039,7 +1039,9 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 					return
 				}
 
-				if ent.entityType == InternalPredefinedEntity {
+				if ent == nil {
+					// skipped, there is no replacement text
+				} else if ent.entityType == InternalPredefinedEntity {
 					if ent.content == "&" && !ctx.replaceEntities {
 						b.WriteString("&#38;")
 					} else {
@@ -4159,6 +4161,10 @@ func (ctx *parserCtx) parseReference() error {
 	if err != nil {
 		return ctx.error(err)
 	}
+	if ent == nil { // skipped, there is no replacement text
+		return nil
+	}
+
 	// if !ctx.wellFormed { return } ??
 
 	wasChecked := ent.checked
@@ -4991,15 +4997,11 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 		var loadedEnt sax.Entity
 		loadedEnt, err = s.GetEntity(ctx.userData, name)
 		if err == nil {
-			ent = loadedEnt.(*Entity)
-			return
-		}
-
-		if loadedEnt == nil && ctx == ctx.userData {
+			ent, _ = loadedEnt.(*Entity)
+		} else if loadedEnt == nil && ctx == ctx.userData {
 			ent, _ = ctx.getEntity(name)
 		}
 	}
-
 	// [ WFC: Entity Declared ]
 	// In a document without any DTD, a document with only an
 	// internal DTD subset which contains no parameter entity
@@ -5020,10 +5022,10 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	// declared is a well-formedness constraint only if
 	// standalone='yes'.
 	if ent == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && ctx.hasPERefs) {
+		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
 			return nil, ctx.error(ErrUndeclaredEntity)
 		} else {
-			if ctx.inSubset == 0 {
+			if ctx.inSubset == 0 && ctx.instate != psAttributeValue {
 				if s := ctx.sax; s != nil {
 					switch err := s.Reference(ctx.userData, name); err {
 					case nil, sax.ErrHandlerUnspecified:
@@ -5060,15 +5062,11 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	} else {
 		// Internal check, no parameter entities here ...
 		switch ent.entityType {
-		case InternalParameterEntity:
-		case ExternalParameterEntity:
+		case InternalParameterEntity, ExternalParameterEntity:
 			return nil, ctx.error(errors.New("attempt to reference the parameter entity"))
 		}
 	}
 
-	if ent == nil {
-		panic("at the end of parseEntityRef, ent == nil")
-	}
 	// [ WFC: No Recursion ]
 	// A parsed entity must not contain a recursive reference
 	// to itself, either directly or indirectly.
-- 
2.43.0


From b19d9f12282a8f0b8e34147e7587a471c8f8520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:34 +0000
Subject: [PATCH 17/74] fix: check the entities which attribute values refer to

---
 interface.go |  6 ++++++
 parserctx.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/interface.go b/interface.go
index 8c9fb1f..bde44d1 100644
--- a/interface.go
+++ b/interface.go
@@ -317,6 +317,11 @@ const (
 	InternalPredefinedEntity
 )
 
+const (
+	entityCheckStarted = iota + 1
+	entityCheckDone
+)
+
 type Entity struct {
 	node
 	orig       string     // content without substitution
@@ -326,6 +331,7 @@ type Entity struct {
 	systemID   string     // URI for a SYSTEM or PUBLIC entity
 	uri        string     // the full URI as computed
 	owner      bool       // does the entity own children
+	attrCheck  int        // was the entity content checked for use in attributes
 	checked    int        // was the entity content checked
 	/* this is also used to count entities
 	 * references done from that entity
diff --git a/parserctx.go b/parserctx.go
index f9f4d88..4fb7b64 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1004,6 +1004,10 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
+	oldstate := ctx.instate
+	ctx.instate = psAttributeValue
+	defer func() { ctx.instate = oldstate }()
+
 	inSpace := false
 	b := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(b)
@@ -5056,8 +5060,8 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 		// The replacement text of any entity referred to directly or
 		// indirectly in an attribute value (other than "&lt;") must
 		// not contain a <.
-		if (ent.checked&1 == 1 || ent.checked == 0) && ent.content != "" && strings.IndexByte(ent.content, '<') > -1 {
-			return nil, ctx.error(errors.New("'<' in entity is not allowed in attribute values"))
+		if err := ctx.checkAttributeEntity(ent); err != nil {
+			return nil, ctx.error(err)
 		}
 	} else {
 		// Internal check, no parameter entities here ...
@@ -5074,6 +5078,48 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	return ent, nil
 }
 
+// checkAttributeEntity checks the replacement text of an entity which an
+// attribute value refers to, including the entities it refers to itself
+func (ctx *parserCtx) checkAttributeEntity(ent *Entity) error {
+	switch ent.attrCheck {
+	case entityCheckDone:
+		return nil
+	case entityCheckStarted:
+		return errors.New("entity loop")
+	}
+	ent.attrCheck = entityCheckStarted
+
+	if strings.IndexByte(ent.content, '<') > -1 {
+		return errors.New("'<' in entity is not allowed in attribute values")
+	}
+
+	s := []byte(ent.content)
+	for i := bytes.IndexByte(s, '&'); i > -1; i = bytes.IndexByte(s, '&') {
+		s = s[i:]
+		if bytes.HasPrefix(s, []byte{'&', '#'}) {
+			_, width, err := parseStringCharRef(s)
+			if err != nil {
+				return err
+			}
+			s = s[width:]
+			continue
+		}
+
+		child, width, err := ctx.parseStringEntityRef(s)
+		if err != nil {
+			return err
+		}
+		s = s[width:]
+		if child, ok := child.(*Entity); ok && child.entityType != InternalPredefinedEntity {
+			if err := ctx.checkAttributeEntity(child); err != nil {
+				return err
+			}
+		}
+	}
+	ent.attrCheck = entityCheckDone
+	return nil
+}
+
 /* Function to check non-linear entity expansion behaviour
  * This is here to detect and stop exponential linear entity expansion
  * This is not a limitation of the parser but a safety
-- 
2.43.0


From 4f804481fb34d0e2d38fcc57c12adc71d41b8f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 18/74] fix: parse entity replacement text in the context of
 the reference

---
 parserctx.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 4fb7b64..ce9690c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4056,11 +4056,8 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		defer g.IRelease("END parseBalancedChunkInternal")
 	}
 
-	ctx.depth++
-	defer func() { ctx.depth-- }()
-
-	if ctx.depth > 40 {
-		return nil, errors.New("entity loop")
+	if ctx.depth >= 40 {
+		return nil, errors.New("entities nested too deeply")
 	}
 
 	newctx := &parserCtx{}
@@ -4089,6 +4086,16 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.doc = ctx.doc
 	newctx.sax = ctx.sax
 	newctx.attsDefault = ctx.attsDefault
+	newctx.attsSpecial = ctx.attsSpecial
+	newctx.standalone = ctx.standalone
+	newctx.hasExternalSubset = ctx.hasExternalSubset
+	newctx.hasPERefs = ctx.hasPERefs
+	newctx.keepBlanks = ctx.keepBlanks
+	newctx.replaceEntities = ctx.replaceEntities
+	newctx.options = ctx.options
+	newctx.loadsubset = ctx.loadsubset
+	newctx.pedantic = ctx.pedantic
+	newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ctx.nsTab.UniqueStack...)
 	newctx.depth = ctx.depth + 1
 
 	// create a dummy node
@@ -4097,11 +4104,18 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		return nil, ctx.error(err)
 	}
 	newctx.pushNode(newRoot)
+	newctx.elem = newRoot
 	newctx.doc.AddChild(newRoot)
-	newctx.switchEncoding()
+	if err := newctx.switchEncoding(); err != nil {
+		return nil, err
+	}
 	if err := newctx.parseContent(); err != nil {
 		return nil, err
 	}
+	// the replacement text must be balanced
+	if cur := newctx.getCursor(); !cur.Done() {
+		return nil, newctx.error(errors.New("end tag in entity without a start tag"))
+	}
 
 	if child := newctx.doc.FirstChild(); child != nil {
 		if grandchild := child.FirstChild(); grandchild != nil {
-- 
2.43.0


From 67bb64a10956ff6e50e0503e896a2e166911aec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 19/74] fix: comments do not share their content with the
 caller

---
 comment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/comment.go b/comment.go
index eb00975..9355f73 100644
--- a/comment.go
+++ b/comment.go
@@ -3,7 +3,8 @@ package helium
 func newComment(b []byte) *Comment {
 	t := Comment{}
 	t.etype = CommentNode
-	t.content = b
+	t.content = make([]byte, len(b))
+	copy(t.content, b)
 	return &t
 }
 
-- 
2.43.0


From 0a2bb809cac2c7849b297731ce82baac0d1cc578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 20/74] fix: normalize all line ends, and reject input which
 cannot be decoded

---
 parserctx.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index ce9690c..d9e0b81 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"net/url"
 	"strings"
 	"sync"
@@ -377,9 +378,26 @@ func (ctx *parserCtx) switchEncoding() error {
 		return ErrByteCursorRequired
 	}
 
-	b := enc.NewDecoder().Reader(cur)
+	b, err := ioutil.ReadAll(enc.NewDecoder().Reader(cur))
+	if err != nil {
+		return err
+	}
+	// This is what the decoders replace malformed input with. Note that
+	// the cursor takes it for the end of the input
+	if bytes.ContainsRune(b, utf8.RuneError) {
+		return errors.New("input contains characters which cannot be decoded as '" + encName + "'")
+	}
+	ctx.nbread = len(b)
+
+	// Line ends are normalized before parsing. In the replacement text of
+	// an entity this has been done already, any CR left is to be kept
+	if ctx.depth == 0 {
+		b = bytes.Replace(b, []byte{'\r', '\n'}, []byte{'\n'}, -1)
+		b = bytes.Replace(b, []byte{'\r'}, []byte{'\n'}, -1)
+	}
+
 	ctx.popInput()
-	ctx.pushInput(strcursor.NewRuneCursor(b))
+	ctx.pushInput(strcursor.NewRuneCursor(bytes.NewReader(b)))
 
 	return nil
 }
@@ -642,8 +660,6 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 	cur.Advance(i)
 	str := buf.String()
 
-	// XXX This is not right, but it's for now the best place to do this
-	str = strings.Replace(str, "\r\n", "\n", -1)
 	if ctx.instate == psCDATA {
 		if s := ctx.sax; s != nil {
 			switch err := s.CDataBlock(ctx.userData, []byte(str)); err {
@@ -1073,10 +1089,6 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 				}
 			}
 		case 0x20, 0xD, 0xA, 0x9:
-			if c == 0xD && cur.PeekN(2) == 0xA {
-				// a CR LF pair is a single line end
-				cur.Advance(1)
-			}
 			if b.Len() > 0 || !normalize {
 				if !normalize || !inSpace {
 					b.WriteRune(0x20)
@@ -2069,12 +2081,12 @@ func (ctx *parserCtx) parseComment() error {
 
 	// -2 for "-->" (note: '>' has not been consumed, so we use -2 instead of -3
 	buf.Truncate(buf.Len() - 2)
-	str := buf.Bytes()
+	// a copy, because the buffer is going to be reused
+	str := append([]byte(nil), buf.Bytes()...)
 	// i+1 because '>' was not consumed in the loop
 	cur.Advance(i + 1)
 
 	if sh := ctx.sax; sh != nil {
-		str = bytes.Replace(str, []byte{'\r', '\n'}, []byte{'\n'}, -1)
 		switch err := sh.Comment(ctx, str); err {
 		case nil, sax.ErrHandlerUnspecified:
 			// no op
-- 
2.43.0


From 08a277b975ea18640542d3c8166a70e467c377ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 21/74] fix: detect the XML declaration reliably

---
 parserctx.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index d9e0b81..8cb09e1 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -404,6 +404,19 @@ func (ctx *parserCtx) switchEncoding() error {
 
 var xmlDeclHint = []byte{'<', '?', 'x', 'm', 'l'}
 
+// looksLikeXMLDecl returns true if the input starts with "<?xml" and a
+// blank (otherwise it may well be a PI such as xml-stylesheet). It must not
+// look further than the first difference: the cursor loses its contents when
+// it is asked for more than there is.
+func (ctx *parserCtx) looksLikeXMLDecl(cur *strcursor.ByteCursor) bool {
+	for i, b := range xmlDeclHint {
+		if cur.PeekN(i+1) != rune(b) {
+			return false
+		}
+	}
+	return isBlankCh(cur.PeekN(len(xmlDeclHint) + 1))
+}
+
 func (ctx *parserCtx) parseDocument() error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseDocument")
@@ -439,7 +452,7 @@ func (ctx *parserCtx) parseDocument() error {
 	}
 
 	// XML prolog
-	if bcur.HasPrefix(xmlDeclHint) {
+	if ctx.looksLikeXMLDecl(bcur) {
 		if err := ctx.parseXMLDecl(); err != nil {
 			return ctx.error(err)
 		}
-- 
2.43.0


From d20ec18a43a0dff3707a4f55cef2853367ab0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 22/74] fix: blanks and malformed declarations in the XML
 declaration

---
 parserctx.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 8cb09e1..c333257 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1232,19 +1232,19 @@ func (ctx *parserCtx) skipBlanks() bool {
 }
 
 func (ctx *parserCtx) skipBlankBytes(cur *strcursor.ByteCursor) bool {
-	i := 0
+	i := 0 // number of blanks skipped
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START skipBlankBytes")
 		defer func() {
 			g.IRelease("END skipBlankBytes (skipped %d)", i)
 		}()
 	}
-	for c := cur.PeekN(i + 1); c != 0x0 && isBlankCh(rune(c)); c = cur.PeekN(i + 1) {
+	// one by one, because the cursor's buffer is limited
+	for c := cur.Peek(); c != 0x0 && isBlankCh(rune(c)); c = cur.Peek() {
+		cur.Advance(1)
 		i++
 	}
 	if i > 0 {
-		cur.Advance(i)
-
 		if cur.Peek() == '%' {
 			pdebug.Printf("Found possible parameter entity reference")
 			ctx.handlePEReference()
@@ -1275,14 +1275,13 @@ func (ctx *parserCtx) parseXMLDecl() error {
 	}
 	ctx.version = v
 
-	if !isBlankCh(rune(cur.Peek())) {
-		// if the next character isn't blank, we expect the
-		// end of XML decl, so return success
-		if cur.Peek() == '?' && cur.PeekN(2) == '>' {
-			cur.Advance(2)
-			return nil
-		}
-
+	sawBlanks := ctx.skipBlankBytes(cur)
+	// this may be the end of XML decl, so return success
+	if cur.Peek() == '?' && cur.PeekN(2) == '>' {
+		cur.Advance(2)
+		return nil
+	}
+	if !sawBlanks {
 		// otherwise, we just saw something unexpected
 		return ctx.error(ErrSpaceRequired)
 	}
@@ -1295,12 +1294,21 @@ func (ctx *parserCtx) parseXMLDecl() error {
 
 		// if the encoding decl is found, then we *could* have
 		// the end of the XML declaration
+		sawBlanks = ctx.skipBlankBytes(cur)
 		if cur.Peek() == '?' && cur.PeekN(2) == '>' {
 			cur.Advance(2)
 			return nil
 		}
-	} else if _, ok := err.(ErrAttrNotFound); ok {
-		return ctx.error(err)
+		if !sawBlanks {
+			return ctx.error(ErrSpaceRequired)
+		}
+	} else {
+		if perr, ok := err.(ErrParseError); ok {
+			err = perr.Err
+		}
+		if _, ok := err.(ErrAttrNotFound); !ok {
+			return ctx.error(err)
+		}
 	}
 
 	vb, err := ctx.parseStandaloneDecl()
@@ -1308,7 +1316,7 @@ func (ctx *parserCtx) parseXMLDecl() error {
 		return err
 	}
 	ctx.standalone = vb
-
+	ctx.skipBlankBytes(cur)
 	if cur.Peek() == '?' && cur.PeekN(2) == '>' {
 		cur.Advance(2)
 		return nil
-- 
2.43.0


From 3aaee23593ef3c49bcd272d008eeba9637e53142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 23/74] fix: names consist of the characters XML allows

---
 parserctx.go | 65 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index c333257..a2f9726 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1720,32 +1720,29 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 
 	// first letter
 	c := cur.Peek()
-	if c == ' ' || c == '>' || c == '/' || /* accelerators */ (!unicode.IsLetter(c) && c != '_' && c != ':') {
+	if c == ' ' || c == '>' || c == '/' || /* accelerators */ !isNameStartChar(c) {
 		err = ctx.error(fmt.Errorf("invalid first letter '%c'", c))
 		return
 	}
 	buf.WriteRune(c)
+	cur.Advance(1)
 
-	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
+	i := 1
+	for c = cur.Peek(); c != 0x0; c = cur.Peek() {
 		if c == ' ' || c == '>' || c == '/' { /* accelerator */
-			i--
 			break
 		}
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '.' && c != '-' && c != '_' && c != ':' /* && !isCombining(c) && !isExtender(c) */ {
-			i--
+		if !isNameChar(c) {
 			break
 		}
 		buf.WriteRune(c)
-
+		cur.Advance(1)
 		i++
 	}
 	if i > MaxNameLength {
 		err = ctx.error(ErrNameTooLong)
 		return
 	}
-
-	cur.Advance(i)
 	name = buf.String()
 	if name == "" {
 		err = ctx.error(errors.New("internal error: parseName returned with empty name"))
@@ -1823,14 +1820,44 @@ func (ctx *parserCtx) parseQName() (local string, prefix string, err error) {
 	return
 }
 
+// nameStartChars are those of XML 1.0 (Fifth Edition)
+//
+// [4] NameStartChar ::= ":" | [A-Z] | "_" | [a-z] | [#xC0-#xD6] |
+//        [#xD8-#xF6] | [#xF8-#x2FF] | [#x370-#x37D] | [#x37F-#x1FFF] |
+//        [#x200C-#x200D] | [#x2070-#x218F] | [#x2C00-#x2FEF] |
+//        [#x3001-#xD7FF] | [#xF900-#xFDCF] | [#xFDF0-#xFFFD] |
+//        [#x10000-#xEFFFF]
+var nameStartChars = &unicode.RangeTable{
+	R16: []unicode.Range16{
+		{Lo: ':', Hi: ':', Stride: 1},
+		{Lo: 'A', Hi: 'Z', Stride: 1},
+		{Lo: '_', Hi: '_', Stride: 1},
+		{Lo: 'a', Hi: 'z', Stride: 1},
+		{Lo: 0xC0, Hi: 0xD6, Stride: 1},
+		{Lo: 0xD8, Hi: 0xF6, Stride: 1},
+		{Lo: 0xF8, Hi: 0x2FF, Stride: 1},
+		{Lo: 0x370, Hi: 0x37D, Stride: 1},
+		{Lo: 0x37F, Hi: 0x1FFF, Stride: 1},
+		{Lo: 0x200C, Hi: 0x200D, Stride: 1},
+		{Lo: 0x2070, Hi: 0x218F, Stride: 1},
+		{Lo: 0x2C00, Hi: 0x2FEF, Stride: 1},
+		{Lo: 0x3001, Hi: 0xD7FF, Stride: 1},
+		{Lo: 0xF900, Hi: 0xFDCF, Stride: 1},
+		{Lo: 0xFDF0, Hi: 0xFFFC, Stride: 1}, // U+FFFD stands for the end of the input
+	},
+	R32: []unicode.Range32{
+		{Lo: 0x10000, Hi: 0xEFFFF, Stride: 1},
+	},
+}
+
 func isNameStartChar(r rune) bool {
-	return unicode.IsLetter(r) || r == '_' || r == ':'
+	return unicode.Is(nameStartChars, r)
 }
 
 func isNameChar(r rune) bool {
-	return r == '.' || r == '-' || r == '_' || r == ':' ||
-		unicode.IsLetter(r) || unicode.IsDigit(r) ||
-		unicode.In(r, unicode.Extender)
+	return isNameStartChar(r) || r == '.' || r == '-' ||
+		(r >= '0' && r <= '9') || r == 0xB7 ||
+		(r >= 0x300 && r <= 0x36F) || (r >= 0x203F && r <= 0x2040)
 }
 
 /**
@@ -1897,28 +1924,28 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 	defer releaseBuffer(buf)
 
 	var c rune
-	if c = cur.Peek(); c == ' ' || c == '>' || c == '/' || !isNameStartChar(c) {
+	if c = cur.Peek(); c == ' ' || c == '>' || c == '/' || c == ':' || !isNameStartChar(c) {
 		err = ctx.error(errors.New("invalid name start char"))
 		return
 	}
 	buf.WriteRune(c)
+	cur.Advance(1)
 
 	// at this point we have at least 1 character name.
 	// see how much more we got here
-	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' && c != '-' && c != '.' {
-			i--
+	i := 1
+	for c = cur.Peek(); c != 0x0; c = cur.Peek() {
+		if c == ':' || !isNameChar(c) {
 			break
 		}
 		buf.WriteRune(c)
+		cur.Advance(1)
 		i++
 	}
 	if i > MaxNameLength {
 		err = ctx.error(ErrNameTooLong)
 		return
 	}
-	cur.Advance(i)
 	ncname = buf.String()
 	return
 }
-- 
2.43.0


From 0aedb46204d722f998a9a190e3f6b9064314f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 24/74] fix: parse name tokens of enumerated attribute types

---
 parserctx.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index a2f9726..c5697fc 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1805,11 +1805,6 @@ func (ctx *parserCtx) parseQName() (local string, prefix string, err error) {
 		return
 	}
 
-	v, err = ctx.parseNmtoken()
-	if err == nil {
-		local = v
-		return
-	}
 
 	v, err = ctx.parseName()
 	if err != nil {
@@ -1875,21 +1870,20 @@ func (ctx *parserCtx) parseNmtoken() (string, error) {
 		defer g.IRelease("END parseNmtoken")
 	}
 
-	i := 1
 	cur := ctx.getCursor()
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
-
-	for c := cur.PeekN(i); c != 0x0; i++ {
-		if !isNameChar(c) {
-			break
-		}
+	for c := cur.Peek(); isNameChar(c); c = cur.Peek() {
 		buf.WriteRune(c)
+		cur.Advance(1)
 	}
 
+	if buf.Len() == 0 {
+		return "", ctx.error(ErrNmtokenRequired)
+	}
 	return buf.String(), nil
 }
 
@@ -3463,7 +3457,7 @@ func (ctx *parserCtx) parseNotationType() (Enumeration, error) {
 		if _, ok := names[name]; ok {
 			return nil, ctx.error(ErrDTDDupToken{Name: name})
 		}
-
+		names[name] = struct{}{}
 		enum = append(enum, name)
 		ctx.skipBlanks()
 
@@ -3508,7 +3502,7 @@ func (ctx *parserCtx) parseEnumerationType() (Enumeration, error) {
 		if _, ok := names[name]; ok {
 			return nil, ctx.error(ErrDTDDupToken{Name: name})
 		}
-
+		names[name] = struct{}{}
 		enum = append(enum, name)
 		ctx.skipBlanks()
 
-- 
2.43.0


From ea90c4cba19257df10072aac564da1bb109e48e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 25/74] fix: reserved PI targets are reserved in any case

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index c5697fc..532a18d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1955,7 +1955,7 @@ func (ctx *parserCtx) parsePITarget() (string, error) {
 		return "", ctx.error(err)
 	}
 
-	if name == "xml" {
+	if strings.EqualFold(name, "xml") {
 		return "", errors.New("XML declaration allowed only at the start of the document")
 	}
 
-- 
2.43.0


From 9c090ff0932f143b17421870fec925e561c181a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 26/74] fix: local names cannot start with a colon

---
 parserctx.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 532a18d..6aed968 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1806,12 +1806,7 @@ func (ctx *parserCtx) parseQName() (local string, prefix string, err error) {
 	}
 
 
-	v, err = ctx.parseName()
-	if err != nil {
-		err = ctx.error(err)
-		return
-	}
-	local = v
+	err = ctx.error(err)
 	return
 }
 
@@ -3457,7 +3452,6 @@ func (ctx *parserCtx) parseNotationType() (Enumeration, error) {
 		if _, ok := names[name]; ok {
 			return nil, ctx.error(ErrDTDDupToken{Name: name})
 		}
-		names[name] = struct{}{}
 		enum = append(enum, name)
 		ctx.skipBlanks()
 
@@ -3502,7 +3496,6 @@ func (ctx *parserCtx) parseEnumerationType() (Enumeration, error) {
 		if _, ok := names[name]; ok {
 			return nil, ctx.error(ErrDTDDupToken{Name: name})
 		}
-		names[name] = struct{}{}
 		enum = append(enum, name)
 		ctx.skipBlanks()
 
-- 
2.43.0


From 89a0e210393a5c3f5a3dc96b9a15f4ff18eb6cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 27/74] fix: character data ends at the end of the input, CDATA
 sections may be empty

---
 parserctx.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 6aed968..f105c2d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -645,34 +645,31 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 		panic("did not get rune cursor")
 	}
 
-	i := 0
-	for c := cur.PeekN(i + 1); c != 0x0; c = cur.PeekN(i + 1) {
+	for c := cur.Peek(); isChar(c); c = cur.Peek() {
 		if !cdata {
-			if c == '<' || c == '&' || !isChar(c) {
+			if c == '<' || c == '&' {
 				break
 			}
 		}
 
-		if c == ']' && cur.PeekN(i+2) == ']' && cur.PeekN(i+3) == '>' {
+		if c == ']' && cur.PeekN(2) == ']' && cur.PeekN(3) == '>' {
 			if cdata {
 				break
 			}
-
 			return ctx.error(ErrMisplacedCDATAEnd)
 		}
-
 		buf.WriteRune(c)
-		i++
+		cur.Advance(1)
 	}
-
-	if i <= 0 {
+	if buf.Len() <= 0 {
+		if cdata { // empty sections are fine
+			return nil
+		}
 		pdebug.Dump(cur)
-		return errors.New("Invalid char data")
+		return ctx.error(errors.New("Invalid char data"))
 	}
 
-	cur.Advance(i)
 	str := buf.String()
-
 	if ctx.instate == psCDATA {
 		if s := ctx.sax; s != nil {
 			switch err := s.CDataBlock(ctx.userData, []byte(str)); err {
-- 
2.43.0


From 4b4d59a12999bf245c0fdd6e4bfbe17cee58f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:58 +0000
Subject: [PATCH 28/74] fix: reject unterminated comments, scan input in linear
 time

---
 parserctx.go | 49 +++++++++++++++++++------------------------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index f105c2d..48d13e9 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1213,12 +1213,11 @@ func (ctx *parserCtx) skipBlanks() bool {
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
-	for c := cur.PeekN(i + 1); isBlankCh(c) && !cur.Done(); c = cur.PeekN(i + 1) {
+	for c := cur.Peek(); isBlankCh(c) && !cur.Done(); c = cur.Peek() {
+		cur.Advance(1)
 		i++
 	}
 	if i > 0 {
-		cur.Advance(i)
-
 		if cur.Peek() == '%' {
 			pdebug.Printf("Found possible parameter entity reference")
 			ctx.handlePEReference()
@@ -1652,20 +1651,13 @@ func (ctx *parserCtx) parsePI() error {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	i := 0
-	for c := cur.PeekN(i + 1); c != 0x0; c = cur.PeekN(i + 1) {
-		if c == '?' && cur.PeekN(i+2) == '>' {
-			break
-		}
-
-		if !isChar(c) {
+	for c := cur.Peek(); isChar(c); c = cur.Peek() {
+		if c == '?' && cur.PeekN(2) == '>' {
 			break
 		}
 		buf.WriteRune(c)
-		i++
+		cur.Advance(1)
 	}
-
-	cur.Advance(i)
 	data := buf.String()
 
 	if !cur.ConsumeString("?>") {
@@ -2088,37 +2080,39 @@ func (ctx *parserCtx) parseComment() error {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	i := 0
-	q := cur.PeekN(i + 1)
+	q := cur.Peek()
 	if !isChar(q) {
 		return ctx.error(ErrInvalidChar)
 	}
-	i++
+	cur.Advance(1)
 	buf.WriteRune(q)
 
-	r := cur.PeekN(i + 1)
+	r := cur.Peek()
 	if !isChar(r) {
 		return ctx.error(ErrInvalidChar)
 	}
-	i++
+	cur.Advance(1)
 	buf.WriteRune(r)
 
-	for c := cur.PeekN(i + 1); isChar(c) && (q != '-' || r != '-' || c != '>'); c = cur.PeekN(i + 1) {
+	for c := cur.Peek(); isChar(c) && (q != '-' || r != '-' || c != '>'); c = cur.Peek() {
 		if q == '-' && r == '-' {
 			return ctx.error(ErrHyphenInComment)
 		}
 		buf.WriteRune(c)
 		q = r
 		r = c
-		i++
+		cur.Advance(1)
+	}
+	if cur.Peek() != '>' {
+		return ctx.error(ErrInvalidChar)
 	}
 
 	// -2 for "-->" (note: '>' has not been consumed, so we use -2 instead of -3
 	buf.Truncate(buf.Len() - 2)
 	// a copy, because the buffer is going to be reused
 	str := append([]byte(nil), buf.Bytes()...)
-	// i+1 because '>' was not consumed in the loop
-	cur.Advance(i + 1)
+	// '>' was not consumed in the loop
+	cur.Advance(1)
 
 	if sh := ctx.sax; sh != nil {
 		switch err := sh.Comment(ctx, str); err {
@@ -3007,16 +3001,11 @@ func (ctx *parserCtx) parseEntityValueInternal(qch rune) (string, error) {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	i := 0
-	for c := cur.PeekN(i + 1); isChar(c) && c != qch; c = cur.PeekN(i + 1) {
+	for c := cur.Peek(); isChar(c) && c != qch; c = cur.Peek() {
 		buf.WriteRune(c)
-		i++
-	}
-	if i > 0 {
-		cur.Advance(i)
-		return buf.String(), nil
+		cur.Advance(1)
 	}
-	return "", nil
+	return buf.String(), nil
 }
 
 /*
-- 
2.43.0


From 2eeddbc9e4a0c8f4ef3ff6f5558b080ff4c14c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:48 +0000
Subject: [PATCH 29/74] fix: namespace names with references, namespace
 declarations by default

---
 parserctx.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 48d13e9..c78dcd5 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -774,6 +774,7 @@ func (ctx *parserCtx) parseStartTag() error {
 	}
 
 	nbNs := 0
+	sawXMLNs := false // the declaration of xml is not stored
 	attrs := []sax.Attribute{}
 	for ctx.instate != psEOF {
 		sawBlanks := ctx.skipBlanks()
@@ -792,6 +793,12 @@ func (ctx *parserCtx) parseStartTag() error {
 		if err != nil {
 			return ctx.error(err)
 		}
+		if aprefix == XMLNsPrefix || attname == XMLNsPrefix && aprefix == "" {
+			// the namespace name is the value with all references expanded
+			if attvalue, err = ctx.decodeEntities([]byte(attvalue), SubstituteRef); err != nil {
+				return ctx.error(err)
+			}
+		}
 
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
@@ -820,6 +827,10 @@ func (ctx *parserCtx) parseStartTag() error {
 				if attvalue != XMLNamespace {
 					return ctx.error(errors.New("xml namespace prefix mapped to wrong URI"))
 				}
+				if sawXMLNs {
+					return ctx.error(errors.New("duplicate attribute is not allowed"))
+				}
+				sawXMLNs = true
 				// skip storing namespace definition
 				goto SkipNS
 			}
@@ -887,6 +898,22 @@ func (ctx *parserCtx) parseStartTag() error {
 			specified := len(attrs)
 		DEFAULTS:
 			for _, attr := range defaults {
+				if attr.Prefix() == XMLNsPrefix || attr.Name() == XMLNsPrefix {
+					// a namespace declaration
+					nsprefix := ""
+					if attr.Prefix() != "" {
+						nsprefix = attr.LocalName()
+					}
+					uri, err := ctx.decodeEntities([]byte(attr.Value()), SubstituteRef)
+					if err != nil {
+						return ctx.error(err)
+					}
+					if nsprefix != XMLPrefix && !ctx.isNSDeclared(nsprefix, nbNs) {
+						ctx.pushNS(nsprefix, uri)
+						nbNs++
+					}
+					continue
+				}
 				// a specified attribute overrides its default
 				for _, a := range attrs[:specified] {
 					if a.Name() == attr.Name() {
-- 
2.43.0


From b38ed0b439cbe32345d23e419bbf30b394961bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 30/74] fix: every entity reference is parsed, whether or not
 it was checked

---
 parserctx.go | 35 ++---------------------------------
 1 file changed, 2 insertions(+), 33 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index c78dcd5..3dda978 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4245,8 +4245,6 @@ func (ctx *parserCtx) parseReference() error {
 
 	// if !ctx.wellFormed { return } ??
 
-	wasChecked := ent.checked
-
 	// special case for predefined entities
 	if ent.name == "" || EntityType(ent.EntityType()) == InternalPredefinedEntity {
 		if ent.content == "" {
@@ -4272,7 +4270,7 @@ func (ctx *parserCtx) parseReference() error {
 	// far more secure as the parser will only process data coming from
 	// the document entity by default.
 	var parsedEnt Node
-	if (wasChecked == 0 || (ent.firstChild == nil && ctx.options.IsSet(ParseNoEnt))) && (EntityType(ent.EntityType()) != ExternalGeneralParsedEntity || ctx.options.IsSet(ParseNoEnt|ParseDTDValid)) {
+	if EntityType(ent.EntityType()) != ExternalGeneralParsedEntity || ctx.options.IsSet(ParseNoEnt|ParseDTDValid) {
 		var userData interface{}
 		if ctx.userData != ctx {
 			userData = ctx.userData
@@ -4377,35 +4375,6 @@ func (ctx *parserCtx) parseReference() error {
 		// provide it to the application, this can take different forms based
 		// on the parsing modes.
 		if ent.firstChild == nil {
-			// Probably running in SAX mode and the callbacks don't
-			// build the entity content. So unless we already went
-			// though parsing for first checking go though the entity
-			// content to generate callbacks associated to the entity
-			if wasChecked != 0 {
-				var userData interface{}
-				if ctx.userData != ctx {
-					userData = ctx.userData
-				}
-				if EntityType(ent.EntityType()) == InternalGeneralEntity {
-					parsedEnt, err = ctx.parseBalancedChunkInternal([]byte(ent.Content()), userData)
-					switch err {
-					case nil, ErrParseSucceeded:
-						// may not have generated nodes, but parse was successful
-					default:
-						return err
-					}
-				} else if EntityType(ent.EntityType()) == ExternalGeneralParsedEntity {
-					parsedEnt, err = ctx.parseExternalEntityPrivate(ent.URI(), ent.externalID)
-					switch err {
-					case nil, ErrParseSucceeded:
-						// may not have generated nodes, but parse was successful
-					default:
-						return err
-					}
-				} else {
-					return errors.New("invalid entity type")
-				}
-			}
 			if s := ctx.sax; s != nil && !ctx.replaceEntities {
 				// Entity reference callback comes second, it's somewhat
 				// superfluous but a compatibility to historical behaviour
@@ -4551,7 +4520,7 @@ func (ctx *parserCtx) parseReference() error {
 		*/
 	}
 
-	return ErrUnimplemented{target: "parseReference"}
+	return nil
 }
 
 func accumulateDecimalCharRef(val int32, c rune) (int32, error) {
-- 
2.43.0


From aa59c362e0243c34c1249e0cab4fe7c226a019fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 31/74] fix: detect entity loops, limit the size of expanded
 entities

---
 parser_interface.go |  2 ++
 parserctx.go        | 38 +++++++++++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/parser_interface.go b/parser_interface.go
index 0f4995e..3fd7e06 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -116,6 +116,8 @@ type parserCtx struct {
 	detectedEncoding  string
 	in                io.Reader
 	nbread            int
+	expanding         []*Entity        // entities whose replacement text is being parsed
+	expansion         *entityExpansion // shared by all contexts of a document
 	instate           parserState
 	keepBlanks        bool
 	remain            int
diff --git a/parserctx.go b/parserctx.go
index 3dda978..7739713 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -388,6 +388,9 @@ func (ctx *parserCtx) switchEncoding() error {
 		return errors.New("input contains characters which cannot be decoded as '" + encName + "'")
 	}
 	ctx.nbread = len(b)
+	if ctx.expansion == nil {
+		ctx.expansion = &entityExpansion{docsize: len(b)}
+	}
 
 	// Line ends are normalized before parsing. In the replacement text of
 	// an entity this has been done already, any CR left is to be kept
@@ -3094,7 +3097,7 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 				continue
 			}
 
-			if err := ctx.entityCheck(ent, 0, 0); err != nil {
+			if err := ctx.entityCheck(ent, len(ent.Content()), 0); err != nil {
 				return "", err
 			}
 
@@ -4157,6 +4160,8 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.pedantic = ctx.pedantic
 	newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ctx.nsTab.UniqueStack...)
 	newctx.depth = ctx.depth + 1
+	newctx.expanding = append(newctx.expanding, ctx.expanding...)
+	newctx.expansion = ctx.expansion
 
 	// create a dummy node
 	newRoot, err := newctx.doc.CreateElement("pseudoroot")
@@ -4276,8 +4281,20 @@ func (ctx *parserCtx) parseReference() error {
 			userData = ctx.userData
 		}
 
+		// [ WFC: No Recursion ]
+		for _, e := range ctx.expanding {
+			if e == ent {
+				return ctx.error(errors.New("entity loop"))
+			}
+		}
+		if err := ctx.entityCheck(ent, len(ent.content), 0); err != nil {
+			return ctx.error(err)
+		}
+
 		if EntityType(ent.EntityType()) == InternalGeneralEntity {
+			ctx.expanding = append(ctx.expanding, ent)
 			parsedEnt, err = ctx.parseBalancedChunkInternal([]byte(ent.Content()), userData)
+			ctx.expanding = ctx.expanding[:len(ctx.expanding)-1]
 			switch err {
 			case nil, ErrParseSucceeded:
 				// may not have generated nodes, but parse was successful
@@ -5163,6 +5180,17 @@ func (ctx *parserCtx) checkAttributeEntity(ent *Entity) error {
 	return nil
 }
 
+// entityExpansion counts the text that entities of one document expand to
+type entityExpansion struct {
+	docsize int
+	size    int
+}
+
+const (
+	expansionOverhead = 40 // for each reference
+	maxExpansion      = 10000000
+)
+
 /* Function to check non-linear entity expansion behaviour
  * This is here to detect and stop exponential linear entity expansion
  * This is not a limitation of the parser but a safety
@@ -5170,6 +5198,14 @@ func (ctx *parserCtx) checkAttributeEntity(ent *Entity) error {
  * parser option.
  */
 func (ctx *parserCtx) entityCheck(ent sax.Entity, size, replacement int) error {
+	// the replacement text may be included as long as all of it together
+	// is in proportion to the size of the document
+	if x := ctx.expansion; ent != nil && x != nil {
+		x.size += size + expansionOverhead
+		if x.size > maxExpansion && x.size > 10*x.docsize {
+			return errors.New("entities expand to too much text")
+		}
+	}
 	return nil
 	/*
 	   size_t consumed = 0;
-- 
2.43.0


From 0e56bd9829cc930c3c39bbb817ba0f16c5780077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 32/74] fix: references in attribute values set through the API

---
 document.go  | 29 ++++++++++++++++++++++++++---
 interface.go |  1 +
 parserctx.go |  9 +++++++++
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index 1feb434..4a1f717 100644
--- a/document.go
+++ b/document.go
@@ -119,7 +119,11 @@ func (d *Document) CreateReference(name string) (*EntityRef, error) {
 		return nil, err
 	}
 
-	ent, ok := d.GetEntity(n.name)
+	var ent *Entity
+	var ok bool
+	if d != nil {
+		ent, ok = d.GetEntity(n.name)
+	}
 	if ok {
 		n.content = []byte(ent.content)
 		// Original code says:
@@ -382,6 +386,13 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 				if err != nil {
 					return
 				}
+				if charval > 0x10FFFF {
+					break
+				}
+			}
+			if !isChar(charval) {
+				err = errors.New("invalid character reference")
+				return
 			}
 		} else {
 			rdr.UnreadRune()
@@ -403,7 +414,16 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 			}
 
 			val := entbuf.String()
-			ent, ok := d.GetEntity(val)
+			var ent *Entity
+			var ok bool
+			if !isName(val) {
+				err = errors.New("invalid entity name '" + val + "'")
+				return
+			} else if predefined, perr := resolvePredefinedEntity(val); perr == nil {
+				ent, ok = predefined, true
+			} else if d != nil {
+				ent, ok = d.GetEntity(val)
+			}
 
 			// XXX I *believe* libxml2 SKIPS entities that it can't resolve
 			// at this point?
@@ -439,16 +459,19 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 				}
 
 				// no children
-				if ok && ent.FirstChild() == nil {
+				if ok && ent.FirstChild() == nil && !ent.expanding {
 					// XXX WTF am I doing here...?
 					var refchildren Node
+					ent.expanding = true // it may refer to itself
 					refchildren, err = d.stringToNodeList(string(node.Content()))
+					ent.expanding = false
 					if err != nil {
 						return
 					}
 					ent.setFirstChild(refchildren)
 					for n := refchildren; n != nil; {
 						n.SetParent(ent)
+						ent.setLastChild(n)
 						if x := n.NextSibling(); x != nil {
 							n = x
 						} else {
diff --git a/interface.go b/interface.go
index bde44d1..871d174 100644
--- a/interface.go
+++ b/interface.go
@@ -332,6 +332,7 @@ type Entity struct {
 	uri        string     // the full URI as computed
 	owner      bool       // does the entity own children
 	attrCheck  int        // was the entity content checked for use in attributes
+	expanding  bool       // are the children being built
 	checked    int        // was the entity content checked
 	/* this is also used to count entities
 	 * references done from that entity
diff --git a/parserctx.go b/parserctx.go
index 7739713..f6961de 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1863,6 +1863,15 @@ func isNameStartChar(r rune) bool {
 	return unicode.Is(nameStartChars, r)
 }
 
+func isName(s string) bool {
+	for i, r := range s {
+		if !isNameChar(r) || i == 0 && !isNameStartChar(r) {
+			return false
+		}
+	}
+	return s != ""
+}
+
 func isNameChar(r rune) bool {
 	return isNameStartChar(r) || r == '.' || r == '-' ||
 		(r >= '0' && r <= '9') || r == 0xB7 ||
-- 
2.43.0


From ca4af300b93fab629e61adf646af7428c4a20830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 33/74] fix: accept references to U+FFFD in attribute values
 set through the API

---
 document.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index 4a1f717..8aae7ff 100644
--- a/document.go
+++ b/document.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/lestrrat-go/pdebug"
 )
@@ -390,7 +391,7 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 					break
 				}
 			}
-			if !isChar(charval) {
+			if !isChar(charval) && charval != utf8.RuneError {
 				err = errors.New("invalid character reference")
 				return
 			}
-- 
2.43.0


From 2a0c0f7f1de9279d03a7eeebc8aeafe0c61def45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 34/74] fix: attributes know their last child, type and
 document

---
 attr.go     | 7 +++++++
 document.go | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/attr.go b/attr.go
index 080f304..2f4bf69 100644
--- a/attr.go
+++ b/attr.go
@@ -28,6 +28,7 @@ func (n *AttributeDecl) SetTreeDoc(doc *Document) {
 
 func newAttribute(name string, ns *Namespace) *Attribute {
 	attr := &Attribute{}
+	attr.etype = AttributeNode
 	attr.name = name
 	attr.ns = ns
 	return attr
@@ -76,9 +77,15 @@ func (n Attribute) Value() string {
 }
 
 func (n Attribute) Prefix() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.Prefix()
 }
 
 func (n Attribute) URI() string {
+	if n.ns == nil {
+		return ""
+	}
 	return n.ns.URI()
 }
diff --git a/document.go b/document.go
index 8aae7ff..cebe584 100644
--- a/document.go
+++ b/document.go
@@ -146,6 +146,7 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 	}
 	var n Node
 	attr = newAttribute(name, ns)
+	attr.doc = d
 	if value != "" {
 		n, err = d.stringToNodeList(value)
 		if err != nil {
@@ -158,7 +159,7 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 			n.SetParent(attr)
 			x := n.NextSibling()
 			if x == nil {
-				n.setLastChild(x)
+				attr.setLastChild(n)
 			}
 			n = x
 		}
-- 
2.43.0


From 160780ef5d3891dfa2f5adc75564ef1d47da5070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 35/74] fix: processing instructions have a name and content,
 and are dumped as such

---
 document.go |  8 ++++++--
 dump.go     |  9 +++++++++
 pi.go       | 10 ++++++++--
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/document.go b/document.go
index cebe584..8eee44d 100644
--- a/document.go
+++ b/document.go
@@ -174,10 +174,14 @@ func (d *Document) CreateNamespace(prefix, uri string) (*Namespace, error) {
 }
 
 func (d *Document) CreatePI(target, data string) (*ProcessingInstruction, error) {
-	return &ProcessingInstruction{
+	pi := &ProcessingInstruction{
 		target: target,
 		data:   data,
-	}, nil
+	}
+	pi.etype = ProcessingInstructionNode
+	pi.name = target
+	pi.doc = d
+	return pi, nil
 }
 
 func (d *Document) CreateDTD() (*DTD, error) {
diff --git a/dump.go b/dump.go
index 0e1983b..33fe06b 100644
--- a/dump.go
+++ b/dump.go
@@ -630,6 +630,15 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		out.Write(n.Content())
 		io.WriteString(out, "-->")
 		return nil
+	case ProcessingInstructionNode:
+		io.WriteString(out, "<?")
+		io.WriteString(out, n.Name())
+		if data := n.Content(); len(data) > 0 {
+			io.WriteString(out, " ")
+			out.Write(data)
+		}
+		io.WriteString(out, "?>")
+		return nil
 	case EntityRefNode:
 		io.WriteString(out, "&")
 		io.WriteString(out, n.Name())
diff --git a/pi.go b/pi.go
index fdd76b6..98e0ddb 100644
--- a/pi.go
+++ b/pi.go
@@ -4,12 +4,18 @@ func (p *ProcessingInstruction) Type() ElementType {
 	return ProcessingInstructionNode
 }
 
+// Content returns the data of the processing instruction
+func (p *ProcessingInstruction) Content() []byte {
+	return []byte(p.data)
+}
+
 func (p *ProcessingInstruction) AddChild(cur Node) error {
-	return addChild(p, cur)
+	return ErrInvalidOperation
 }
 
 func (p *ProcessingInstruction) AddContent(b []byte) error {
-	return addContent(p, b)
+	p.data += string(b)
+	return nil
 }
 
 func (p *ProcessingInstruction) AddSibling(cur Node) error {
-- 
2.43.0


From 86e884629d79b1e5197bea4a156c252f0ec5fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 36/74] fix: comments and processing instructions of the
 internal subset belong to it

---
 dump.go |  2 +-
 tree.go | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/dump.go b/dump.go
index 33fe06b..69e5275 100644
--- a/dump.go
+++ b/dump.go
@@ -265,7 +265,7 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 		io.WriteString(out, " ")
 	}
 
-	if len(dtd.entities) == 0 && len(dtd.elements) == 0 && len(dtd.pentities) == 0 && len(dtd.attributes) == 0 {
+	if dtd.FirstChild() == nil {
 		/* (dtd.notations == NULL) && */
 		io.WriteString(out, ">")
 		return nil
diff --git a/tree.go b/tree.go
index d1cfd2a..4492163 100644
--- a/tree.go
+++ b/tree.go
@@ -57,9 +57,9 @@ func (t *TreeBuilder) ProcessingInstruction(ctxif sax.Context, target, data stri
 
 	switch ctx.inSubset {
 	case 1:
-		doc.IntSubset().AddChild(pi)
+		return doc.IntSubset().AddChild(pi)
 	case 2:
-		doc.ExtSubset().AddChild(pi)
+		return doc.ExtSubset().AddChild(pi)
 	}
 
 	parent := ctx.elem
@@ -200,6 +200,13 @@ func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
 		return err
 	}
 
+	switch ctx.inSubset {
+	case 1:
+		return doc.IntSubset().AddChild(e)
+	case 2:
+		return doc.ExtSubset().AddChild(e)
+	}
+
 	n := ctx.elem
 	if n == nil {
 		doc.AddChild(e)
-- 
2.43.0


From 53642af93aef8c2ab1371cfe976867f0d1046a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 37/74] fix: the text of CDATA sections is part of the tree

---
 tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 4492163..54ea3ac 100644
--- a/tree.go
+++ b/tree.go
@@ -175,12 +175,12 @@ func (t *TreeBuilder) Characters(ctxif sax.Context, data []byte) error {
 	return n.AddContent(data)
 }
 
-func (t *TreeBuilder) CDataBlock(_ sax.Context, data []byte) error {
+func (t *TreeBuilder) CDataBlock(ctxif sax.Context, data []byte) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START tree.CDATABlock")
 		defer g.IRelease("END tree.CDATABlock")
 	}
-	return nil
+	return t.Characters(ctxif, data)
 }
 
 func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
-- 
2.43.0


From 7771d67513242f62463d7ba9825c6d0f34b95d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 38/74] fix: references outside of the document element are
 errors

---
 tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree.go b/tree.go
index 54ea3ac..d8faf9c 100644
--- a/tree.go
+++ b/tree.go
@@ -474,6 +474,9 @@ func (t *TreeBuilder) Reference(ctxif sax.Context, name string) error {
 	}
 
 	parent := ctx.elem
+	if parent == nil {
+		return errors.New("reference placed in wrong location")
+	}
 	return parent.AddChild(n)
 }
 
-- 
2.43.0


From 7f16903af70feea27982ff8bdb713340d44a8f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 39/74] fix: serialize text which happens to be textnoenc

---
 dump.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dump.go b/dump.go
index 69e5275..8f709a6 100644
--- a/dump.go
+++ b/dump.go
@@ -646,11 +646,7 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		return nil
 	case TextNode:
 		c := n.Content()
-		if string(c) == XMLTextNoEnc {
-			panic("unimplemented")
-		} else {
-			escapeText(out, c, false)
-		}
+		escapeText(out, c, false)
 		return nil // no recursing down
 	case ElementDeclNode:
 		if err = d.dumpElementDecl(out, n.(*ElementDecl)); err != nil {
-- 
2.43.0


From b1d8de0a4d0e8b1ab2019e7cbd34961e9c7f271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 40/74] fix: serialize U+FFFD as the parser reads it,
 characters outside of the XML range as U+FFFD

---
 dump.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dump.go b/dump.go
index 8f709a6..bb1dc7c 100644
--- a/dump.go
+++ b/dump.go
@@ -60,7 +60,7 @@ var (
 	esc_tab  = []byte("&#9;")
 	esc_nl   = []byte("&#10;")
 	esc_cr   = []byte("&#13;")
-	esc_fffd = []byte("\uFFFD") // Unicode replacement character
+	esc_fffd = []byte("&#xFFFD;") // Unicode replacement character, the parser does not take it as is
 )
 
 // Decide whether the given rune is in the XML Character Range, per
@@ -70,7 +70,7 @@ func isInCharacterRange(r rune) (inrange bool) {
 	return r == 0x09 ||
 		r == 0x0A ||
 		r == 0x0D ||
-		r >= 0x20 && r <= 0xDF77 ||
+		r >= 0x20 && r <= 0xD7FF ||
 		r >= 0xE000 && r <= 0xFFFD ||
 		r >= 0x10000 && r <= 0x10FFFF
 }
@@ -112,7 +112,7 @@ func escapeAttrValue(w io.Writer, s []byte) error {
 					break
 				}
 			}
-			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
+			if !isInCharacterRange(r) || r == 0xFFFD {
 				esc = esc_fffd
 				break
 			}
@@ -172,7 +172,7 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 					break
 				}
 			}
-			if !isInCharacterRange(r) || (r == 0xFFFD && width == 1) {
+			if !isInCharacterRange(r) || r == 0xFFFD {
 				esc = esc_fffd
 				break
 			}
-- 
2.43.0


From 0f228c2e6d4c18621429a93aff415303d91b4dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 41/74] fix: serialize the cancellation of the default
 namespace, escape namespace names

---
 dump.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dump.go b/dump.go
index bb1dc7c..530ead1 100644
--- a/dump.go
+++ b/dump.go
@@ -589,7 +589,7 @@ func (d *Dumper) dumpNsList(out io.Writer, nslist []*Namespace) error {
 }
 
 func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
-	if ns.href == "" {
+	if ns.href == "" && ns.prefix != "" {
 		// no op
 		return nil
 	}
@@ -602,8 +602,11 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 		io.WriteString(out, "xmlns:")
 		io.WriteString(out, ns.prefix)
 	}
-	io.WriteString(out, "=")
-	dumpQuotedString(out, ns.href)
+	io.WriteString(out, `="`)
+	if err := escapeAttrValue(out, []byte(ns.href)); err != nil {
+		return err
+	}
+	io.WriteString(out, `"`)
 	return nil
 }
 
-- 
2.43.0


From bf1b538a18cc6ceca3de13f6d3655372e987025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:23 +0000
Subject: [PATCH 42/74] fix: serialize external identifiers and ENTITIES types

---
 dump.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dump.go b/dump.go
index 530ead1..ce27017 100644
--- a/dump.go
+++ b/dump.go
@@ -40,6 +40,7 @@ func dumpQuotedString(out io.Writer, s string) error {
 	out.Write(qch_dquote)
 	for len(s) > 0 && dqi > -1 {
 		io.WriteString(out, s[:dqi])
+		io.WriteString(out, "&quot;")
 		s = s[dqi+1:]
 		dqi = strings.IndexByte(s, qch_dquote[0])
 	}
@@ -257,11 +258,13 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 
 	if dtd.externalID != "" {
 		io.WriteString(out, " PUBLIC ")
-		io.WriteString(out, dtd.externalID)
+		dumpQuotedString(out, dtd.externalID)
+		io.WriteString(out, " ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	} else if dtd.systemID != "" {
 		io.WriteString(out, " SYSTEM ")
-		io.WriteString(out, dtd.systemID)
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	}
 
@@ -450,7 +453,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 	case ExternalGeneralParsedEntity, ExternalGeneralUnparsedEntity:
 		io.WriteString(out, "<!ENTITY ")
 		io.WriteString(out, ent.name)
-		if ent.externalID == "" {
+		if ent.externalID != "" {
 			io.WriteString(out, " PUBLIC ")
 			dumpQuotedString(out, ent.externalID)
 			io.WriteString(out, " ")
@@ -493,6 +496,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 			io.WriteString(out, " SYSTEM ")
 			dumpQuotedString(out, ent.systemID)
 		}
+		io.WriteString(out, ">\n")
 	default:
 		return errors.New("invalid entity type")
 	}
@@ -540,6 +544,8 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		io.WriteString(out, " IDREFS")
 	case AttrEntity:
 		io.WriteString(out, " ENTITY")
+	case AttrEntities:
+		io.WriteString(out, " ENTITIES")
 	case AttrNmtoken:
 		io.WriteString(out, " NMTOKEN")
 	case AttrNmtokens:
-- 
2.43.0


From b87c6d321b25e320d4688dd623c050b7dc1155d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 43/74] fix: serialize attribute defaults as they can be read
 again

---
 dump.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/dump.go b/dump.go
index ce27017..76ad056 100644
--- a/dump.go
+++ b/dump.go
@@ -577,9 +577,21 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		return errors.New("invalid AttributeDecl default value type")
 	}
 
-	if n.defvalue != "" {
-		io.WriteString(out, " ")
-		dumpQuotedString(out, n.defvalue)
+	if n.defvalue != "" || n.def == AttrDefaultNone || n.def == AttrDefaultFixed {
+		// references are part of the value
+		io.WriteString(out, ` "`)
+		v := []byte(n.defvalue)
+		for i := bytes.IndexByte(v, '&'); i > -1; i = bytes.IndexByte(v, '&') {
+			if err := escapeAttrValue(out, v[:i]); err != nil {
+				return err
+			}
+			io.WriteString(out, "&")
+			v = v[i+1:]
+		}
+		if err := escapeAttrValue(out, v); err != nil {
+			return err
+		}
+		io.WriteString(out, `"`)
 	}
 	io.WriteString(out, ">\n")
 	return nil
-- 
2.43.0


From 94b5f75626840ecd2d493fbd487d36288fb24f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 44/74] fix: serialize entity values as they can be read again

---
 dump.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/dump.go b/dump.go
index 76ad056..5252ab3 100644
--- a/dump.go
+++ b/dump.go
@@ -396,9 +396,8 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 }
 
 func dumpEntityContent(out io.Writer, content string) error {
-	if strings.IndexByte(content, '%') == -1 {
-		dumpQuotedString(out, content)
-		return nil
+	if strings.IndexAny(content, "%&\"") == -1 {
+		return dumpQuotedString(out, content)
 	}
 
 	io.WriteString(out, `"`)
@@ -411,17 +410,11 @@ func dumpEntityContent(out io.Writer, content string) error {
 		}
 		switch c {
 		case '"':
-			if buf.Len() > 0 {
-				buf.WriteTo(out)
-				buf.Reset()
-			}
-			io.WriteString(out, "&quot;")
+			buf.Write(esc_quot)
 		case '%':
-			if buf.Len() > 0 {
-				buf.WriteTo(out)
-				buf.Reset()
-			}
-			io.WriteString(out, "&#x25;")
+			buf.WriteString("&#x25;")
+		case '&':
+			buf.WriteString("&#38;")
 		default:
 			buf.WriteByte(c)
 		}
-- 
2.43.0


From e3d828243accf79ce80e1987105d6ec133748b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 45/74] fix: serialize carriage returns in entity values

---
 dump.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dump.go b/dump.go
index 5252ab3..3dbcacf 100644
--- a/dump.go
+++ b/dump.go
@@ -396,7 +396,7 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 }
 
 func dumpEntityContent(out io.Writer, content string) error {
-	if strings.IndexAny(content, "%&\"") == -1 {
+	if strings.IndexAny(content, "%&\"\r") == -1 {
 		return dumpQuotedString(out, content)
 	}
 
@@ -413,6 +413,8 @@ func dumpEntityContent(out io.Writer, content string) error {
 			buf.Write(esc_quot)
 		case '%':
 			buf.WriteString("&#x25;")
+		case '\r':
+			buf.Write(esc_cr)
 		case '&':
 			buf.WriteString("&#38;")
 		default:
-- 
2.43.0


From 46d19c7f3de7d00553b413d6c475e724aed1d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 46/74] fix: report failures to write when serializing

---
 dump.go | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/dump.go b/dump.go
index 3dbcacf..797c8a5 100644
--- a/dump.go
+++ b/dump.go
@@ -195,6 +195,25 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 	return nil
 }
 
+// errWriter remembers the first error of the underlying writer, and does
+// not write to it after that
+type errWriter struct {
+	out io.Writer
+	err error
+}
+
+func (w *errWriter) Write(p []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	n, err := w.out.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	w.err = err
+	return n, err
+}
+
 type Dumper struct{}
 
 func (d *Dumper) writeString(out io.Writer, content string) error {
@@ -209,17 +228,18 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 		defer g.IRelease("END Dumper.DumpDoc")
 	}
 
-	if err := d.DumpNode(out, doc); err != nil {
+	w := &errWriter{out: out}
+	if err := d.DumpNode(w, doc); err != nil {
 		return err
 	}
 
 	for e := doc.FirstChild(); e != nil; e = e.NextSibling() {
-		if err := d.DumpNode(out, e); err != nil {
+		if err := d.DumpNode(w, e); err != nil {
 			return err
 		}
-		io.WriteString(out, "\n")
+		io.WriteString(w, "\n")
 	}
-	return nil
+	return w.err
 }
 
 func (d *Dumper) dumpDocContent(out io.Writer, n Node) error {
@@ -624,6 +644,21 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 }
 
 func (d *Dumper) DumpNode(out io.Writer, n Node) error {
+	if w, ok := out.(*errWriter); ok {
+		if w.err != nil {
+			return w.err
+		}
+		return d.dumpNode(w, n)
+	}
+
+	w := &errWriter{out: out}
+	if err := d.dumpNode(w, n); err != nil {
+		return err
+	}
+	return w.err
+}
+
+func (d *Dumper) dumpNode(out io.Writer, n Node) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START Dumper.DumpNode '%s'", n.Name())
 		defer g.IRelease("END Dumper.DumpNode")
-- 
2.43.0


From a5e2f8a00bf8c2bed0832df61bae9d4918965e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 47/74] fix: entity references do not contain the DTD

---
 node.go      |  5 ++++-
 reference.go | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index 74c637c..f85df81 100644
--- a/node.go
+++ b/node.go
@@ -70,6 +70,9 @@ func Walk(n Node, f WalkFunc) error {
 	if err := f(n); err != nil {
 		return err
 	}
+	if n.Type() == EntityRefNode {
+		return nil // what follows is part of the DTD
+	}
 	for chld := n.FirstChild(); chld != nil; chld = chld.NextSibling() {
 		if err := Walk(chld, f); err != nil {
 			return err
@@ -265,7 +268,7 @@ func setTreeDoc(n Node, doc *Document) {
 			}
 		}
 	}
-	if child := n.FirstChild(); child != nil {
+	if child := n.FirstChild(); child != nil && n.Type() != EntityRefNode {
 		setListDoc(child, doc)
 	}
 	n.SetOwnerDocument(doc)
diff --git a/reference.go b/reference.go
index 1eb07e8..6e6aa64 100644
--- a/reference.go
+++ b/reference.go
@@ -6,12 +6,18 @@ func newEntityRef() *EntityRef {
 	return n
 }
 
+// Content returns the replacement text of the entity. The children of the
+// reference are the entity itself, which is part of the DTD
+func (e *EntityRef) Content() []byte {
+	return e.content
+}
+
 func (e *EntityRef) AddChild(cur Node) error {
-	return addChild(e, cur)
+	return ErrInvalidOperation
 }
 
 func (e *EntityRef) AddContent(b []byte) error {
-	return addContent(e, b)
+	return ErrInvalidOperation
 }
 
 func (e *EntityRef) AddSibling(cur Node) error {
-- 
2.43.0


From 1ab72fb4d19a4621fbcf6788ae7577f441e6f737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 48/74] fix: a node is in one place only, and not within itself

---
 document.go |  9 ++++---
 node.go     | 67 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 text.go     |  8 +++++--
 3 files changed, 79 insertions(+), 5 deletions(-)

diff --git a/document.go b/document.go
index 8eee44d..59d2a0c 100644
--- a/document.go
+++ b/document.go
@@ -94,7 +94,10 @@ func (d *Document) SetDocumentElement(root Node) error {
 		return nil
 	}
 
-	root.SetParent(d)
+	if err := checkLink(d, root); err != nil {
+		return err
+	}
+
 	var old Node
 	for old = d.firstChild; old != nil; old = old.NextSibling() {
 		if old.Type() == ElementNode {
@@ -103,8 +106,8 @@ func (d *Document) SetDocumentElement(root Node) error {
 	}
 
 	if old == nil {
-		d.AddChild(root)
-	} else {
+		return d.AddChild(root)
+	} else if old != root {
 		old.Replace(root)
 	}
 	return nil
diff --git a/node.go b/node.go
index f85df81..d4c14a5 100644
--- a/node.go
+++ b/node.go
@@ -57,6 +57,7 @@ func (n docnode) Content() []byte {
 
 func addContent(n Node, b []byte) error {
 	t := newText(b)
+	t.doc = n.OwnerDocument()
 	return n.AddChild(t)
 }
 
@@ -101,8 +102,61 @@ func (n docnode) LastChild() Node {
 	return n.lastChild
 }
 
+// checkLink tells if cur can be linked to n or to its siblings
+func checkLink(n, cur Node) error {
+	if cur == nil {
+		return ErrNilNode
+	}
+	if cur == n || cur.Type() == DocumentNode || (cur.Type() == AttributeNode) != (n.Type() == AttributeNode) {
+		return ErrInvalidOperation
+	}
+	if cur.FirstChild() != nil {
+		for p := n.Parent(); p != nil; p = p.Parent() {
+			if p == cur {
+				return ErrInvalidOperation
+			}
+		}
+	}
+	return nil
+}
+
+// unlinkNode removes the node from where it is
+func unlinkNode(n Node) {
+	parent, prev, next := n.Parent(), n.PrevSibling(), n.NextSibling()
+	if prev != nil {
+		prev.SetNextSibling(next)
+	}
+	if next != nil {
+		next.SetPrevSibling(prev)
+	}
+	if parent != nil {
+		if parent.FirstChild() == n {
+			parent.setFirstChild(next)
+		}
+		if parent.LastChild() == n {
+			parent.setLastChild(prev)
+		}
+	}
+	n.SetParent(nil)
+	n.SetPrevSibling(nil)
+	n.SetNextSibling(nil)
+}
+
 func addChild(n Node, cur Node) error {
+	if cur != nil && cur.Type() == AttributeNode {
+		return ErrInvalidOperation
+	}
+	if n.Type() != AttributeNode || cur == nil {
+		if err := checkLink(n, cur); err != nil {
+			return err
+		}
+	}
+
 	l := n.LastChild()
+	if l == cur {
+		return nil // it is where it should be
+	}
+	unlinkNode(cur)
 	if l == nil { // No children, set firstChild to cur
 		if pdebug.Enabled {
 			pdebug.Printf("LastChild is nil, setting firstChild and lastChild")
@@ -138,6 +192,10 @@ func (n docnode) PrevSibling() Node {
 }
 
 func addSibling(n, cur Node) error {
+	if err := checkLink(n, cur); err != nil {
+		return err
+	}
+	unlinkNode(cur)
 	for n != nil {
 		if n.NextSibling() == nil {
 			n.SetNextSibling(cur)
@@ -168,6 +226,11 @@ func (n *docnode) SetParent(cur Node) {
 }
 
 func replaceNode(n Node, cur Node) {
+	if checkLink(n, cur) != nil || n.Parent() == nil && n.PrevSibling() == nil && n.NextSibling() == nil {
+		return
+	}
+	unlinkNode(cur)
+
 	if next := n.NextSibling(); next != nil {
 		cur.SetNextSibling(next) // cur.next = n.next
 		next.SetPrevSibling(cur) // n.next.prev = cur
@@ -187,6 +250,10 @@ func replaceNode(n Node, cur Node) {
 		}
 		cur.SetParent(parent)
 	}
+
+	n.SetParent(nil)
+	n.SetPrevSibling(nil)
+	n.SetNextSibling(nil)
 }
 
 func (n node) Namespace() *Namespace {
diff --git a/text.go b/text.go
index 6cfdf15..1b8aec4 100644
--- a/text.go
+++ b/text.go
@@ -36,10 +36,14 @@ func (n *Text) AddContent(b []byte) error {
 
 func (n *Text) AddSibling(cur Node) error {
 	if pdebug.Enabled {
-		g := pdebug.IPrintf("START Text.AddSibling '%s'", cur.Content())
+		g := pdebug.IPrintf("START Text.AddSibling")
 		defer g.IRelease("END Text.AddSibling")
 	}
-	if cur.Type() == TextNode {
+	if err := checkLink(n, cur); err != nil {
+		return err
+	}
+	if cur.Type() == TextNode && n.NextSibling() == nil {
+		unlinkNode(cur)
 		return n.AddContent(cur.Content())
 	}
 	return addSibling(n, cur)
-- 
2.43.0


From d8313c2831281c555a427f1585038fe6fbd91685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 49/74] fix: the internal subset precedes the document element

---
 document.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index 59d2a0c..05485af 100644
--- a/document.go
+++ b/document.go
@@ -225,8 +225,22 @@ func (d *Document) CreateInternalSubset(name, externalID, systemID string) (*DTD
 	cur.doc = d
 
 	// there's an elaborate code in libxml2 to insert the node in
-	// the correct location...
-	d.AddChild(cur)
+	// the correct location... it must precede the document element
+	root := d.firstChild
+	for root != nil && root.Type() != ElementNode {
+		root = root.NextSibling()
+	}
+	if err := d.AddChild(cur); err != nil {
+		return nil, err
+	}
+	for root != nil && root != Node(cur) {
+		// move what follows behind it
+		next := root.NextSibling()
+		if err := d.AddChild(root); err != nil {
+			return nil, err
+		}
+		root = next
+	}
 
 	return cur, nil
 }
-- 
2.43.0


From 2cbd94b0c08bec9450299200b684611ecb7e9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 50/74] fix: serialize documents in the encoding they declare

---
 dump.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/dump.go b/dump.go
index 797c8a5..0aec321 100644
--- a/dump.go
+++ b/dump.go
@@ -9,6 +9,9 @@ import (
 	"unicode/utf8"
 
 	"github.com/lestrrat-go/pdebug"
+	"github.com/lestrrat-go/helium/encoding"
+	xenc "golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 var (
@@ -229,6 +232,19 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 	}
 
 	w := &errWriter{out: out}
+	if e := encoding.Load(doc.Encoding()); e != nil && e != encoding.Load("utf8") {
+		// the text has to be what the XML declaration says
+		enc := transform.NewWriter(w, xenc.HTMLEscapeUnsupported(e.NewEncoder()))
+		err := d.dumpDoc(&errWriter{out: enc}, doc)
+		if cerr := enc.Close(); err == nil {
+			err = cerr
+		}
+		return err
+	}
+	return d.dumpDoc(w, doc)
+}
+
+func (d *Dumper) dumpDoc(w *errWriter, doc *Document) error {
 	if err := d.DumpNode(w, doc); err != nil {
 		return err
 	}
@@ -256,8 +272,8 @@ func (d *Dumper) dumpDocContent(out io.Writer, n Node) error {
 	}
 	io.WriteString(out, version+`"`)
 
-	if encoding := doc.encoding; encoding != "" {
-		io.WriteString(out, ` encoding="`+encoding+`"`)
+	if enc := doc.encoding; enc != "" {
+		io.WriteString(out, ` encoding="`+enc+`"`)
 	}
 
 	switch doc.Standalone() {
-- 
2.43.0


From 6b66db3f471153b044409fe5ffd15ff1f62a6dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 51/74] fix: helium-lint reports files which cannot be opened

---
 cmd/helium-lint/helium-lint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/helium-lint/helium-lint.go b/cmd/helium-lint/helium-lint.go
index f13cf43..7fb3752 100644
--- a/cmd/helium-lint/helium-lint.go
+++ b/cmd/helium-lint/helium-lint.go
@@ -46,7 +46,7 @@ func _main() int {
 	}
 
 	inputCh := make(chan io.Reader)
-	errCh := make(chan error)
+	errCh := make(chan error, 1) // must not block, it is read after all input is done
 	switch {
 	case len(args) > 0: // filename present
 		go func() {
@@ -89,7 +89,7 @@ func _main() int {
 
 	select {
 	case err := <-errCh:
-		fmt.Fprintf(os.Stderr, "%s", err)
+		fmt.Fprintf(os.Stderr, "%s\n", err)
 		return 1
 	default:
 	}
-- 
2.43.0


From efda5dd01363e0e7fc6d3db34f732879b9cec36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 52/74] fix: helium-lint reports failures to write its output

---
 cmd/helium-lint/helium-lint.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/helium-lint/helium-lint.go b/cmd/helium-lint/helium-lint.go
index 7fb3752..ab577fd 100644
--- a/cmd/helium-lint/helium-lint.go
+++ b/cmd/helium-lint/helium-lint.go
@@ -84,7 +84,10 @@ func _main() int {
 		}
 
 		d := helium.Dumper{}
-		d.DumpDoc(os.Stdout, doc)
+		if err := d.DumpDoc(os.Stdout, doc); err != nil {
+			fmt.Fprintf(os.Stderr, "%s\n", err)
+			return 1
+		}
 	}
 
 	select {
-- 
2.43.0


From 3926596f48aa430bdd3cc183927e051e3948ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 53/74] fix: helium-lint closes files once they are read

---
 cmd/helium-lint/helium-lint.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/helium-lint/helium-lint.go b/cmd/helium-lint/helium-lint.go
index ab577fd..5dde711 100644
--- a/cmd/helium-lint/helium-lint.go
+++ b/cmd/helium-lint/helium-lint.go
@@ -73,6 +73,9 @@ func _main() int {
 	p := helium.NewParser()
 	for in := range inputCh {
 		buf, err := ioutil.ReadAll(in)
+		if c, ok := in.(io.Closer); ok {
+			c.Close()
+		}
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "%s\n", err)
 			return 1
-- 
2.43.0


From d5e80e3bfb0a72cf693e8a57ecde5a15743e9cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 54/74] fix: a blank is required after <!DOCTYPE

---
 parserctx.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index f6961de..7ef1b9b 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2179,7 +2179,9 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 		return ctx.error(ErrInvalidDTD)
 	}
 
-	ctx.skipBlanks()
+	if !ctx.skipBlanks() {
+		return ctx.error(ErrSpaceRequired)
+	}
 
 	name, err := ctx.parseName()
 	if err != nil {
-- 
2.43.0


From acf8e51962df5da1f59d6e48712188495be2b057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 55/74] fix: reject what is not a markup declaration in the
 internal subset

---
 parserctx.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 7ef1b9b..4746241 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2249,6 +2249,13 @@ func (ctx *parserCtx) parseInternalSubset() error {
 
 	for !cur.Done() && cur.Peek() != ']' {
 		ctx.skipBlanks()
+		switch cur.Peek() {
+		case ']':
+			continue
+		case '<', '%':
+		default:
+			return ctx.error(ErrInvalidDTD)
+		}
 		if err := ctx.parseMarkupDecl(); err != nil {
 			return ctx.error(err)
 		}
@@ -2314,6 +2321,8 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 					if err := ctx.parseEntityDecl(); err != nil {
 						return ctx.error(err)
 					}
+				} else {
+					return ctx.error(ErrInvalidDTD)
 				}
 			case 'A': // <!A...
 				if err := ctx.parseAttributeListDecl(); err != nil {
@@ -2328,10 +2337,12 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 					return ctx.error(err)
 				}
 			default:
-				// no op: error detected later?
+				return ctx.error(ErrInvalidDTD)
 			}
 		} else if cur.PeekN(2) == '?' {
 			return ctx.parsePI()
+		} else {
+			return ctx.error(ErrInvalidDTD)
 		}
 	}
 
@@ -4001,7 +4012,7 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 		panic("did not get rune cursor")
 	}
 	if !cur.ConsumeString("<!ATTLIST") {
-		return nil
+		return ctx.error(ErrInvalidDTD)
 	}
 
 	if !isBlankCh(cur.Peek()) {
@@ -4098,7 +4109,7 @@ func (ctx *parserCtx) parseNotationDecl() error {
 		g := pdebug.IPrintf("START parseNotationDecl")
 		defer g.IRelease("END parseNotationDecl")
 	}
-	return nil
+	return ctx.error(ErrUnimplemented{target: "parseNotationDecl"})
 }
 
 func (ctx *parserCtx) parseExternalID() (string, string, error) {
-- 
2.43.0


From c84f2c2c124a0a19e983d4bb9cd7365e67fdd900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 56/74] fix: attribute lists may be empty

---
 parserctx.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 4746241..294c046 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -4025,8 +4025,12 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 		return ctx.error(err)
 	}
 	ctx.skipBlanks()
+	if cur.Peek() == '>' { // no attributes
+		cur.Advance(1)
+		return nil
+	}
 
-	for cur.Peek() != '>' && ctx.instate != psEOF {
+	for ctx.instate != psEOF {
 		attrName, err := ctx.parseName()
 		if err != nil {
 			return ctx.error(ErrAttributeNameRequired)
-- 
2.43.0


From fbcef208532ee226aad39d665fb9e581d0069614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 57/74] fix: element declarations need a content specification

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index 294c046..efbb94b 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2567,6 +2567,7 @@ func (ctx *parserCtx) parseElementDecl() (ElementTypeVal, error) {
 			return UndefinedElementType, ctx.error(err)
 		}
 	} else {
+		return UndefinedElementType, ctx.error(ErrElementContentNotFinished)
 		/*
 		   // [ WFC: PEs in Internal Subset ] error handling.
 		      if ((RAW == '%') && (ctxt->external == 0) &&
-- 
2.43.0


From 4facd1dc73833ad601c86cf3595be7274482318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 58/74] fix: mixed content declarations with blanks, several
 names or without their end

---
 parserctx.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index efbb94b..2da0d1d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2694,6 +2694,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 	if !cur.ConsumeString("#PCDATA") {
 		return nil, ctx.error(ErrPCDATARequired)
 	}
+	ctx.skipBlanks()
 
 	if cur.Peek() == ')' {
 		/*
@@ -2720,7 +2721,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 	var err error
 	var retelem *ElementContent
 	var curelem *ElementContent
-	if c := cur.Peek(); c == '(' || c == '|' {
+	if c := cur.Peek(); c == '|' {
 		retelem, err = ctx.doc.CreateElementContent("", ElementContentPCDATA)
 		if err != nil {
 			return nil, ctx.error(err)
@@ -2747,7 +2748,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 			if err != nil {
 				return nil, ctx.error(err)
 			}
-			n.c1, err = ctx.doc.CreateElementContent("", ElementContentElement)
+			n.c1, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
 			if err != nil {
 				return nil, ctx.error(err)
 			}
@@ -2763,7 +2764,9 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 		}
 		ctx.skipBlanks()
 	}
-	if cur.Peek() == ')' && cur.PeekN(2) == '*' {
+	if cur.Peek() != ')' || cur.PeekN(2) != '*' {
+		return nil, ctx.error(ErrElementContentNotFinished)
+	} else {
 		cur.Advance(2)
 		if elem != "" {
 			curelem.c2, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
-- 
2.43.0


From 0eb7b9da43c0e02a7be65a1ab8b15902e6c960a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 59/74] fix: content models which start with a group

---
 parserctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 2da0d1d..244be2a 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2837,7 +2837,8 @@ func (ctx *parserCtx) parseElementChildrenContentDeclPriv(depth int) (*ElementCo
 	if cur.Peek() == '(' {
 		cur.Advance(1)
 		ctx.skipBlanks()
-		retelem, err := ctx.parseElementChildrenContentDeclPriv(depth + 1)
+		var err error
+		retelem, err = ctx.parseElementChildrenContentDeclPriv(depth + 1)
 		if err != nil {
 			return nil, ctx.error(err)
 		}
-- 
2.43.0


From 6f9435727d56051d6e39ab690b6a45e9907ae323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 60/74] fix: groups which repeat, in content models

---
 parserctx.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 244be2a..cf2343c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2968,6 +2968,9 @@ LOOP:
 		curelem.c2 = last
 		last.parent = curelem
 	}
+	if cur.Peek() != ')' {
+		return nil, ctx.error(ErrElementContentNotFinished)
+	}
 	cur.Advance(1)
 	/*
 	   	    if ((ctxt->validate) && (ctxt->input->id != inputchk)) {
@@ -2982,7 +2985,7 @@ LOOP:
 	case '?':
 		// XXX why would ret be null?
 		if retelem != nil {
-			if retelem.coccur == ElementContentPlus {
+			if retelem.coccur == ElementContentPlus || retelem.coccur == ElementContentMult {
 				retelem.coccur = ElementContentMult
 			} else {
 				retelem.coccur = ElementContentOpt
@@ -2990,6 +2993,7 @@ LOOP:
 		}
 		cur.Advance(1)
 	case '*':
+		cur.Advance(1)
 		if retelem != nil {
 			retelem.coccur = ElementContentMult
 			curelem = retelem
@@ -3009,7 +3013,8 @@ LOOP:
 			}
 		}
 	case '+':
-		if retelem.coccur == ElementContentOpt {
+		cur.Advance(1)
+		if retelem.coccur == ElementContentOpt || retelem.coccur == ElementContentMult {
 			retelem.coccur = ElementContentMult
 		} else {
 			retelem.coccur = ElementContentPlus
-- 
2.43.0


From 6de7a6471c7daeaa155ade73e6df26e42e296536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 61/74] fix: entity declarations need a value

---
 parserctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index cf2343c..e7cda95 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3297,7 +3297,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 				pdebug.Printf("Attempting to parse external ID")
 			}
 			literal, uri, err = ctx.parseExternalID()
-			if err != nil {
+			if err != nil || uri == "" {
 				return ctx.error(ErrValueRequired)
 			}
 
@@ -3342,7 +3342,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			}
 		} else {
 			literal, uri, err = ctx.parseExternalID()
-			if err != nil {
+			if err != nil || uri == "" {
 				return ctx.error(ErrValueRequired)
 			}
 
-- 
2.43.0


From 476941855891d980c49e5d490777d9f5791a2d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:42 +0000
Subject: [PATCH 62/74] fix: the first of several declarations is binding, and
 found by its name

---
 dtd.go       |  6 ++++--
 parserctx.go |  4 +++-
 tree.go      | 23 +++++++++++++++++++++++
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/dtd.go b/dtd.go
index 63e72b2..0067e62 100644
--- a/dtd.go
+++ b/dtd.go
@@ -166,8 +166,10 @@ func (dtd *DTD) LookupParameterEntity(name string) (*Entity, bool) {
 }
 
 func (dtd *DTD) GetElementDesc(name string) (*ElementDecl, bool) {
-	ret, ok := dtd.elements[name]
-	return ret, ok
+	if i := strings.IndexByte(name, ':'); i > -1 {
+		return dtd.LookupElement(name[i+1:], name[:i])
+	}
+	return dtd.LookupElement(name, "")
 }
 
 func (dtd *DTD) AddChild(cur Node) error {
diff --git a/parserctx.go b/parserctx.go
index e7cda95..e33a145 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3453,7 +3453,9 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			*/
 		}
 	}
-	if curent != nil {
+	if ent, ok := curent.(*Entity); ok && (ent.orig != "" || ent.content != value) {
+		// declared before, that declaration is binding
+	} else if curent != nil {
 		curent.SetOrig(literal)
 	}
 
diff --git a/tree.go b/tree.go
index d8faf9c..2cde7e9 100644
--- a/tree.go
+++ b/tree.go
@@ -330,6 +330,9 @@ func (t *TreeBuilder) AttributeDecl(ctxif sax.Context, eName string, aName strin
 	doc := ctx.doc
 	switch ctx.inSubset {
 	case 1:
+		if _, ok := doc.intSubset.LookupAttribute(local, prefix, eName); ok {
+			return nil // the first declaration is binding
+		}
 		if pdebug.Enabled {
 			pdebug.Printf("Processing intSubset...")
 		}
@@ -378,6 +381,14 @@ func (t *TreeBuilder) ElementDecl(ctxif sax.Context, name string, typ int, conte
 		return errors.New("sax.ElementDecl called while not in subset")
 	}
 
+	local, prefix := name, ""
+	if i := strings.IndexByte(name, ':'); i > -1 {
+		prefix, local = name[:i], name[i+1:]
+	}
+	if _, ok := dtd.LookupElement(local, prefix); ok {
+		return nil // not an error unless validating, the first one is binding
+	}
+
 	_, err := dtd.AddElementDecl(name, ElementTypeVal(typ), content.(*ElementContent))
 	if err != nil {
 		return err
@@ -534,6 +545,18 @@ func (t *TreeBuilder) EntityDecl(ctxif sax.Context, name string, typ int, public
 		return errors.New("sax.EntityDecl called while note in subset")
 	}
 
+	// the first declaration is binding
+	switch EntityType(typ) {
+	case InternalParameterEntity, ExternalParameterEntity:
+		if _, ok := dtd.LookupParameterEntity(name); ok {
+			return nil
+		}
+	default:
+		if _, ok := dtd.LookupEntity(name); ok {
+			return nil
+		}
+	}
+
 	ent, err := dtd.AddEntity(name, EntityType(typ), publicID, systemID, notation)
 	if err != nil {
 		return err
-- 
2.43.0


From d4bd440a6eee2c771977f661887962930f8cae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 63/74] fix: reject documents nested so deeply that parsing or
 serializing them would overflow the stack

---
 parser_interface.go | 5 +++++
 parserctx.go        | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/parser_interface.go b/parser_interface.go
index 3fd7e06..87ca517 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -32,6 +32,10 @@ const (
 
 const MaxNameLength = 50000
 
+// MaxElementDepth is the depth at which elements may be nested
+const MaxElementDepth = 262144
+
+
 var (
 	ErrAmpersandRequired            = errors.New("'&' was required here")
 	ErrAttrListNotFinished          = errors.New("attrlist must finish with a ')'")
@@ -118,6 +122,7 @@ type parserCtx struct {
 	nbread            int
 	expanding         []*Entity        // entities whose replacement text is being parsed
 	expansion         *entityExpansion // shared by all contexts of a document
+	elemDepth         int              // number of open elements
 	instate           parserState
 	keepBlanks        bool
 	remain            int
diff --git a/parserctx.go b/parserctx.go
index e33a145..cbbd552 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -713,6 +713,13 @@ func (ctx *parserCtx) parseElement() error {
 		defer g.IRelease("END parseElement (%d)", i)
 	}
 
+	// elements are parsed, and serialized, recursively
+	if ctx.elemDepth >= MaxElementDepth {
+		return ctx.error(errors.New("elements nested too deeply"))
+	}
+	ctx.elemDepth++
+	defer func() { ctx.elemDepth-- }()
+
 	// namespaces declared by this element go out of scope when it ends
 	nsLen := ctx.nsTab.Len()
 	defer func() { ctx.nsTab.Pop(ctx.nsTab.Len() - nsLen) }()
@@ -4200,6 +4207,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.depth = ctx.depth + 1
 	newctx.expanding = append(newctx.expanding, ctx.expanding...)
 	newctx.expansion = ctx.expansion
+	newctx.elemDepth = ctx.elemDepth
 
 	// create a dummy node
 	newRoot, err := newctx.doc.CreateElement("pseudoroot")
-- 
2.43.0


From 097ebd33895cdb91bbdf8e319e36d45d72d4fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 64/74] fix: content models which repeat are the same however
 often they are read

---
 parserctx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parserctx.go b/parserctx.go
index cbbd552..d024407 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3033,6 +3033,7 @@ LOOP:
 		 * (a | b?)+ == (a | b)*
 		 */
 		found := false
+		curelem = retelem
 		for curelem != nil && curelem.ctype == ElementContentOr {
 			if curelem.c1 != nil && (curelem.c1.coccur == ElementContentOpt || curelem.c1.coccur == ElementContentMult) {
 				curelem.c1.coccur = ElementContentOnce
-- 
2.43.0


From bada19770878424f8324d149c38be119bc2874a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 65/74] fix: content which starts with /> does not make an
 element empty

---
 parserctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index d024407..984826b 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -726,7 +726,7 @@ func (ctx *parserCtx) parseElement() error {
 
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
-	// be bar</foo>. Given <foo />, the next token would
+	// be >bar</foo>. Given <foo />, the next token would
 	// be />
 	if err := ctx.parseStartTag(); err != nil {
 		return ctx.error(err)
@@ -737,6 +737,7 @@ func (ctx *parserCtx) parseElement() error {
 		panic("did not get rune cursor")
 	}
 	if !cur.HasPrefixString("/>") {
+		cur.Advance(1) // the end of the start tag
 		if err := ctx.parseContent(); err != nil {
 			return ctx.error(err)
 		}
@@ -789,7 +790,6 @@ func (ctx *parserCtx) parseStartTag() error {
 	for ctx.instate != psEOF {
 		sawBlanks := ctx.skipBlanks()
 		if cur.Peek() == '>' {
-			cur.Advance(1)
 			break
 		}
 
-- 
2.43.0


From 394cb865fcad0011a42e53642e190549e74fbd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 66/74] fix: a document type declaration which has ended has no
 internal subset

---
 parserctx.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 984826b..d67b887 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -492,11 +492,8 @@ func (ctx *parserCtx) parseDocument() error {
 			return ctx.error(err)
 		}
 
-		if cur.HasPrefixString("[") {
-			ctx.instate = psDTD
-			if err := ctx.parseInternalSubset(); err != nil {
-				return ctx.error(err)
-			}
+		if err := ctx.parseInternalSubset(); err != nil {
+			return ctx.error(err)
 		}
 
 		ctx.inSubset = inExternalSubset
@@ -2232,7 +2229,6 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 	if c != '>' {
 		return ctx.error(ErrDocTypeNotFinished)
 	}
-	cur.Advance(1)
 
 	return nil
 }
-- 
2.43.0


From a0fefb1d8d3eb6182327cf4695f75357b4498425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 67/74] fix: documents with many references to a short entity
 are not excessive

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index d67b887..a83f093 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -5230,7 +5230,7 @@ type entityExpansion struct {
 }
 
 const (
-	expansionOverhead = 40 // for each reference
+	expansionOverhead = 20 // for each reference
 	maxExpansion      = 10000000
 )
 
-- 
2.43.0


From 4e99124670f3ee76c4f6696975fbfde74d20d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 68/74] fix: namespace declarations by default share their
 value

---
 parserctx.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index a83f093..7cf19eb 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -23,6 +23,7 @@ type attrData struct {
 	prefix    string
 	value     string
 	isDefault bool
+	expanded  bool // references in value have been expanded
 }
 
 func (a attrData) LocalName() string { return a.localname }
@@ -911,10 +912,14 @@ func (ctx *parserCtx) parseStartTag() error {
 					if attr.Prefix() != "" {
 						nsprefix = attr.LocalName()
 					}
-					uri, err := ctx.decodeEntities([]byte(attr.Value()), SubstituteRef)
-					if err != nil {
-						return ctx.error(err)
+					if !attr.expanded { // once for all elements
+						uri, err := ctx.decodeEntities([]byte(attr.Value()), SubstituteRef)
+						if err != nil {
+							return ctx.error(err)
+						}
+						attr.value, attr.expanded = uri, true
 					}
+					uri := attr.Value()
 					if nsprefix != XMLPrefix && !ctx.isNSDeclared(nsprefix, nbNs) {
 						ctx.pushNS(nsprefix, uri)
 						nbNs++
-- 
2.43.0


From dd3d5c3a1d83e84f4eb969ae92d614eb9f0c22c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 69/74] fix: references to an entity share its replacement text

---
 document.go  | 2 +-
 interface.go | 1 +
 reference.go | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index 05485af..2d71d66 100644
--- a/document.go
+++ b/document.go
@@ -129,7 +129,7 @@ func (d *Document) CreateReference(name string) (*EntityRef, error) {
 		ent, ok = d.GetEntity(n.name)
 	}
 	if ok {
-		n.content = []byte(ent.content)
+		n.text = ent.content
 		// Original code says:
 		// The parent pointer in entity is a DTD pointer and thus is NOT
 		// updated.  Not sure if this is 100% correct.
diff --git a/interface.go b/interface.go
index 871d174..6d9db23 100644
--- a/interface.go
+++ b/interface.go
@@ -214,6 +214,7 @@ type NamespaceContainer interface {
 
 type EntityRef struct {
 	node
+	text string // the replacement text, shared with the entity
 }
 
 // Text is just a wrapper around Node so that we can
diff --git a/reference.go b/reference.go
index 6e6aa64..9e8761d 100644
--- a/reference.go
+++ b/reference.go
@@ -9,7 +9,7 @@ func newEntityRef() *EntityRef {
 // Content returns the replacement text of the entity. The children of the
 // reference are the entity itself, which is part of the DTD
 func (e *EntityRef) Content() []byte {
-	return e.content
+	return []byte(e.text)
 }
 
 func (e *EntityRef) AddChild(cur Node) error {
-- 
2.43.0


From 6f1792e7da105fd4d5c702f8422d2e391af8cf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:08 +0000
Subject: [PATCH 70/74] fix: characters hz-gb2312 does not have are escaped in
 its ASCII state

---
 dump.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dump.go b/dump.go
index 0aec321..9f17979 100644
--- a/dump.go
+++ b/dump.go
@@ -217,6 +217,21 @@ func (w *errWriter) Write(p []byte) (int, error) {
 	return n, err
 }
 
+// restarted is an encoder that is back in its initial state after a
+// character it does not have, so that an escape can take its place. The
+// encoder of hz-gb2312 writes the switch to that state, but forgets it did
+type restarted struct {
+	transform.Transformer
+}
+
+func (r restarted) Transform(dst, src []byte, atEOF bool) (int, int, error) {
+	nDst, nSrc, err := r.Transformer.Transform(dst, src, atEOF)
+	if err != nil && err != transform.ErrShortDst && err != transform.ErrShortSrc {
+		r.Reset()
+	}
+	return nDst, nSrc, err
+}
+
 type Dumper struct{}
 
 func (d *Dumper) writeString(out io.Writer, content string) error {
@@ -234,7 +249,7 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 	w := &errWriter{out: out}
 	if e := encoding.Load(doc.Encoding()); e != nil && e != encoding.Load("utf8") {
 		// the text has to be what the XML declaration says
-		enc := transform.NewWriter(w, xenc.HTMLEscapeUnsupported(e.NewEncoder()))
+		enc := transform.NewWriter(w, xenc.HTMLEscapeUnsupported(&xenc.Encoder{Transformer: restarted{e.NewEncoder()}}))
 		err := d.dumpDoc(&errWriter{out: enc}, doc)
 		if cerr := enc.Close(); err == nil {
 			err = cerr
-- 
2.43.0


From 1e6db09879817d99d923f7db5cdeb9907888de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 71/74] fix: do not skip a NUL at the end of an encoding name

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 7cf19eb..6504376 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1561,7 +1561,7 @@ func (ctx *parserCtx) parseEncodingName(_ rune) (string, error) {
 	buf.WriteRune(c)
 
 	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
+	for c = cur.PeekN(i); ; c = cur.PeekN(i) {
 		if !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(c >= '0' && c <= '9') && c != '.' && c != '_' && c != '-' {
 			i--
 			break
-- 
2.43.0


From d1d841f784345257b14995ed9a10470574432cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 72/74] fix: keep the colon of declared names which begin with
 one

---
 dtd.go       | 4 ++--
 parserctx.go | 2 +-
 tree.go      | 4 ++--
 valid.go     | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dtd.go b/dtd.go
index 0067e62..398b553 100644
--- a/dtd.go
+++ b/dtd.go
@@ -62,7 +62,7 @@ func (dtd *DTD) AddElementDecl(name string, typ ElementTypeVal, content *Element
 	}
 
 	var prefix string
-	if i := strings.IndexByte(name, ':'); i > -1 {
+	if i := strings.IndexByte(name, ':'); i > 0 {
 		prefix = name[:i]
 		name = name[i+1:]
 	}
@@ -166,7 +166,7 @@ func (dtd *DTD) LookupParameterEntity(name string) (*Entity, bool) {
 }
 
 func (dtd *DTD) GetElementDesc(name string) (*ElementDecl, bool) {
-	if i := strings.IndexByte(name, ':'); i > -1 {
+	if i := strings.IndexByte(name, ':'); i > 0 {
 		return dtd.LookupElement(name[i+1:], name[:i])
 	}
 	return dtd.LookupElement(name, "")
diff --git a/parserctx.go b/parserctx.go
index 6504376..06d40d8 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3987,7 +3987,7 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 
 	var prefix string
 	var local string
-	if i := strings.IndexByte(attrName, ':'); i > -1 {
+	if i := strings.IndexByte(attrName, ':'); i > 0 {
 		prefix = attrName[:i]
 		local = attrName[i+1:]
 	} else {
diff --git a/tree.go b/tree.go
index 2cde7e9..5f37ba5 100644
--- a/tree.go
+++ b/tree.go
@@ -318,7 +318,7 @@ func (t *TreeBuilder) AttributeDecl(ctxif sax.Context, eName string, aName strin
 	}
 	var prefix string
 	var local string
-	if i := strings.IndexByte(aName, ':'); i > -1 {
+	if i := strings.IndexByte(aName, ':'); i > 0 {
 		prefix = aName[:i]
 		local = aName[i+1:]
 	} else {
@@ -382,7 +382,7 @@ func (t *TreeBuilder) ElementDecl(ctxif sax.Context, name string, typ int, conte
 	}
 
 	local, prefix := name, ""
-	if i := strings.IndexByte(name, ':'); i > -1 {
+	if i := strings.IndexByte(name, ':'); i > 0 {
 		prefix, local = name[:i], name[i+1:]
 	}
 	if _, ok := dtd.LookupElement(local, prefix); ok {
diff --git a/valid.go b/valid.go
index eae00b9..764c816 100644
--- a/valid.go
+++ b/valid.go
@@ -19,7 +19,7 @@ func newElementContent(name string, ctype ElementContentType) (*ElementContent,
 		if name == "" {
 			return nil, errors.New("ElementContent (element) must have name")
 		}
-		if i := strings.IndexByte(name, ':'); i > -1 {
+		if i := strings.IndexByte(name, ':'); i > 0 {
 			prefix = name[:i]
 			local = name[i+1:]
 		} else {
-- 
2.43.0


From bd072078022a75a99018cecd56cbc77b12a2bbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 73/74] fix: refuse to add an entity that is already declared

---
 dtd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dtd.go b/dtd.go
index 398b553..b55ee42 100644
--- a/dtd.go
+++ b/dtd.go
@@ -34,6 +34,11 @@ func (dtd *DTD) AddEntity(name string, typ EntityType, publicID, systemID, conte
 		return nil, errors.Errorf("invalid entity type: %d", typ)
 	}
 
+	// the first declaration is binding
+	if _, ok := table[name]; ok {
+		return nil, errors.Errorf("redefinition of entity %s", name)
+	}
+
 	ent := newEntity(name, typ, publicID, systemID, content, "")
 	ent.doc = dtd.doc
 	table[name] = ent
-- 
2.43.0


From 50638b5012a5024850617ac0f65a6a8a06d861b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:33 +0000
Subject: [PATCH 74/74] fix: white space in an entity belongs to the element
 with the reference

---
 parser_interface.go |  1 +
 parserctx.go        | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser_interface.go b/parser_interface.go
index 87ca517..a0ec5d1 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -121,6 +121,7 @@ type parserCtx struct {
 	in                io.Reader
 	nbread            int
 	expanding         []*Entity        // entities whose replacement text is being parsed
+	expandedIn        string           // name of the element with the reference to the innermost of them
 	expansion         *entityExpansion // shared by all contexts of a document
 	elemDepth         int              // number of open elements
 	instate           parserState
diff --git a/parserctx.go b/parserctx.go
index 06d40d8..52dbe43 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -125,6 +125,15 @@ func (ctx *parserCtx) peekNode() *Element {
 	return ctx.nodeTab.PeekOne()
 }
 
+// contextName returns the name of the innermost element. Replacement text
+// of an entity belongs to the element with the reference
+func (ctx *parserCtx) contextName() string {
+	if ctx.depth > 0 && ctx.nodeTab.Len() == 1 {
+		return ctx.expandedIn
+	}
+	return ctx.peekNode().Name()
+}
+
 func (ctx *parserCtx) popNode() (elem *Element) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START popNode")
@@ -2035,7 +2044,7 @@ func (ctx *parserCtx) areBlanks(s string, blankChars bool) (ret bool) {
 		return
 	}
 	if ctx.doc != nil {
-		ok, _ := ctx.doc.IsMixedElement(ctx.peekNode().Name())
+		ok, _ := ctx.doc.IsMixedElement(ctx.contextName())
 		ret = !ok
 		return
 	}
@@ -4208,6 +4217,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ctx.nsTab.UniqueStack...)
 	newctx.depth = ctx.depth + 1
 	newctx.expanding = append(newctx.expanding, ctx.expanding...)
+	newctx.expandedIn = ctx.contextName()
 	newctx.expansion = ctx.expansion
 	newctx.elemDepth = ctx.elemDepth
 
-- 
2.43.0

