From 0aa48816ee7020c2c2cd3e5c8ee94f35ee966454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:06 +0000
Subject: [PATCH 01/18] fix: return element content verbatim and skip comments,
 CDATA and PIs as units

parseElementContent re-serialised nested tags, so Raw depended on map
iteration order and byte offsets computed from the content did not match the
source document. Comments, CDATA sections and processing instructions inside
content were scanned as if they were tags.
---
 parser.go | 217 +++++++++++++++++++++++-------------------------------
 1 file changed, 93 insertions(+), 124 deletions(-)

diff --git a/parser.go b/parser.go
index 2253de1..24875a2 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"bytes"
 	"strings"
 )
 
@@ -70,6 +71,7 @@ type xmlParser struct {
 	depth       int
 	filterDepth int
 	dataLen     int // Cache data length to avoid repeated len() calls
+	contentEnd  int // End of the content returned by the last parseElementContent call
 }
 
 // newXMLParser creates a new XML parser
@@ -247,102 +249,69 @@ func (p *xmlParser) parseElementName() (string, map[string]string, bool) {
 }
 
 // parseElementContent extracts the content between opening and closing tags
-// Returns the text content, handling nested elements and escaping
+// Returns the content exactly as it appears in the source and leaves contentEnd
+// at the '<' of the matching closing tag (or at the end of the data if the
+// element is never closed)
 func (p *xmlParser) parseElementContent(elementName string) string {
 	// Track nesting depth to prevent stack overflow attacks
 	p.depth++
 	if p.depth > MaxNestingDepth {
 		// Exceeded maximum nesting depth - stop parsing and return empty
 		p.depth--
+		p.contentEnd = p.pos
 		return ""
 	}
 	defer func() { p.depth-- }()
 
-	var content strings.Builder
+	start := p.pos
 	// Track element-specific depth for matching tags
 	elementDepth := 1
 
-	for p.pos < p.dataLen && elementDepth > 0 {
-		c := p.peek()
+	for p.pos < p.dataLen {
+		if p.peek() != '<' || p.pos+1 >= p.dataLen {
+			p.next()
+			continue
+		}
 
-		if c == '<' {
-			// Check if this is a closing tag, opening tag, or comment/CDATA
-			if p.pos+1 < p.dataLen {
-				next := p.data[p.pos+1]
+		switch p.data[p.pos+1] {
+		case '/':
+			// Closing tag
+			tagStart := p.pos
+			p.next() // skip '<'
+			p.next() // skip '/'
+			closeName := p.readUntil('>')
+			p.next() // skip '>'
+
+			// Extract just the element name (before any whitespace)
+			closeName = strings.TrimSpace(closeName)
+			if idx := strings.IndexAny(closeName, " \t\n\r"); idx >= 0 {
+				closeName = closeName[:idx]
+			}
 
-				if next == '/' {
-					// Closing tag
-					p.next() // skip '<'
-					p.next() // skip '/'
-					closeName := p.readUntil('>')
-					p.next() // skip '>'
-
-					// Extract just the element name (before any whitespace)
-					closeName = strings.TrimSpace(closeName)
-					if idx := strings.IndexAny(closeName, " \t\n\r"); idx >= 0 {
-						closeName = closeName[:idx]
-					}
-
-					if closeName == elementName {
-						elementDepth--
-						if elementDepth == 0 {
-							break
-						}
-					}
-					content.WriteString("</")
-					content.WriteString(closeName)
-					content.WriteString(">")
-				} else if next == '!' {
-					// Comment or CDATA - include in content for now
-					content.WriteByte(c)
-					p.next()
-				} else {
-					// Opening tag of nested element
-					p.next() // skip '<'
-					nestedName := p.readUntilAny(" \t\n\r/>")
-
-					// Write the opening tag
-					content.WriteString("<")
-					content.WriteString(nestedName)
-
-					// Parse attributes and check for self-closing
-					attrs := p.parseAttributes()
-					for attrName, attrValue := range attrs {
-						content.WriteString(" ")
-						content.WriteString(attrName)
-						content.WriteString("=\"")
-						content.WriteString(escapeXML(attrValue))
-						content.WriteString("\"")
-					}
-
-					isSelfClosing := false
-					if p.peek() == '/' {
-						p.next()
-						isSelfClosing = true
-						content.WriteString("/")
-					}
-
-					if p.peek() == '>' {
-						p.next()
-						content.WriteString(">")
-					}
-
-					// Only increment elementDepth if this is the same element type we're tracking
-					if !isSelfClosing && nestedName == elementName {
-						elementDepth++
-					}
+			if closeName == elementName {
+				elementDepth--
+				if elementDepth == 0 {
+					p.contentEnd = tagStart
+					return string(p.data[start:tagStart])
 				}
-			} else {
-				content.WriteByte(c)
-				p.next()
 			}
-		} else {
-			content.WriteByte(c)
-			p.next()
+		case '!', '?':
+			// Comment, CDATA, DOCTYPE or processing instruction - not markup
+			p.skipSpecial()
+		default:
+			// Opening tag of nested element
+			p.next() // skip '<'
+			nestedName, _, isSelfClosing := p.parseElementName()
+
+			// Only increment elementDepth if this is the same element type we're tracking
+			if !isSelfClosing && nestedName == elementName {
+				elementDepth++
+			}
 		}
 	}
 
-	return content.String()
+	p.contentEnd = p.pos
+	return string(p.data[start:p.pos])
 }
 
 // extractTextContent extracts only text content, stripping out all XML tags
@@ -408,57 +377,12 @@ func (p *xmlParser) skipToNextElement() bool {
 					// This is an opening tag
 					return true
 				}
-				// Skip comments, processing instructions, closing tags
-				if next == '!' {
-					// Check for DOCTYPE declaration (XXE protection)
-					// Case-insensitive check to prevent bypass with <!doctype> or mixed case
-					if p.pos+8 < p.dataLen {
-						doctypeEnd := p.pos + 9
-						if doctypeEnd > p.dataLen {
-							doctypeEnd = p.dataLen
-						}
-						doctype := string(p.data[p.pos:doctypeEnd])
-						if strings.EqualFold(doctype, "<!DOCTYPE") {
-							// DOCTYPE detected - skip it to prevent XXE attacks
-							p.pos += len(doctype)
-							// Skip to end of DOCTYPE declaration
-							depth := 0
-							for p.pos < p.dataLen {
-								c := p.data[p.pos]
-								if c == '[' {
-									depth++
-								} else if c == ']' {
-									depth--
-								} else if c == '>' && depth == 0 {
-									p.pos++
-									break
-								}
-								p.pos++
-							}
-							continue
-						}
-					}
-					// Skip comment or CDATA
-					p.next() // skip '<'
-					p.next() // skip '!'
-					if p.pos+1 < p.dataLen && p.data[p.pos] == '-' && p.data[p.pos+1] == '-' {
-						// Comment: skip to -->
-						for p.pos < p.dataLen-2 {
-							if p.data[p.pos] == '-' && p.data[p.pos+1] == '-' && p.data[p.pos+2] == '>' {
-								p.pos += 3
-								break
-							}
-							p.pos++
-						}
-					}
-				} else if next == '?' {
-					// Skip processing instruction
+				// Skip comments, CDATA, DOCTYPE, processing instructions, closing tags
+				if next == '/' {
 					p.readUntil('>')
 					p.next()
 				} else {
-					// Skip closing tag
-					p.readUntil('>')
-					p.next()
+					p.skipSpecial()
 				}
 			} else {
 				return false
@@ -470,6 +394,51 @@ func (p *xmlParser) skipToNextElement() bool {
 	return false
 }
 
+// skipSpecial advances the parser past the comment, CDATA section, DOCTYPE
+// declaration or processing instruction at the current position
+func (p *xmlParser) skipSpecial() {
+	rest := p.data[p.pos:]
+	switch {
+	case bytes.HasPrefix(rest, []byte("<!--")):
+		p.skipPast(4, "-->")
+	case bytes.HasPrefix(rest, []byte("<![CDATA[")):
+		p.skipPast(9, "]]>")
+	case len(rest) >= 9 && strings.EqualFold(string(rest[:9]), "<!DOCTYPE"):
+		// DOCTYPE detected - skip it to prevent XXE attacks
+		// Case-insensitive check to prevent bypass with <!doctype> or mixed case
+		p.pos += 9
+		depth := 0
+		for p.pos < p.dataLen {
+			c := p.data[p.pos]
+			p.pos++
+			if c == '[' {
+				depth++
+			} else if c == ']' {
+				depth--
+			} else if c == '>' && depth == 0 {
+				break
+			}
+		}
+	case len(rest) > 1 && rest[1] == '?':
+		p.readUntil('>')
+		p.next()
+	default:
+		p.next() // skip '<'
+		p.next() // skip '!'
+	}
+}
+
+// skipPast advances past the first occurrence of end that starts at least
+// offset bytes after the current position, or to the end of the data
+func (p *xmlParser) skipPast(offset int, end string) {
+	p.pos += offset
+	if idx := bytes.Index(p.data[p.pos:], []byte(end)); idx >= 0 {
+		p.pos += idx + len(end)
+	} else {
+		p.pos = p.dataLen
+	}
+}
+
 // XML escaping functions
 
 // xmlEscaper is a pre-compiled replacer for efficient XML escaping
-- 
2.43.0


From 9f9ccd081084e89b03d01fac0a6a522dd14c9e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:20 +0000
Subject: [PATCH 02/18] fix: compute element positions from the source when
 modifying documents

Set and Delete derived offsets from re-serialised content and from the length
of the tag name, which corrupted the document or panicked when tags contained
extra whitespace, single quotes, or attribute values that escape differently.
---
 builder.go | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/builder.go b/builder.go
index a79466b..74aa15b 100644
--- a/builder.go
+++ b/builder.go
@@ -171,6 +171,7 @@ type elementLocation struct {
 	endTagPos     int    // Position of '<' in closing tag
 	contentStart  int    // Position after '>' of opening tag
 	contentEnd    int    // Position of '<' in closing tag
+	endPos        int    // Position after '>' of closing tag
 	elementName   string // Name of the element
 	attrs         map[string]string
 	isSelfClosing bool
@@ -225,7 +226,7 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 					} else {
 						_ = parser.parseElementContent(elemName)
 						// parser.pos is now just after the '>' of </name>
-						endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+						endTagPos = parser.contentEnd // at '<' of </name>
 						contentEnd = endTagPos
 					}
 					return &elementLocation{
@@ -233,20 +234,21 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 						endTagPos:     endTagPos + baseOffset,
 						contentStart:  contentStart + baseOffset,
 						contentEnd:    contentEnd + baseOffset,
+						endPos:        parser.pos + baseOffset,
 						elementName:   elemName,
 						attrs:         attrs,
 						isSelfClosing: isSelfClosing,
 					}, true
 				}
 				// Continue searching within this element
-				var content string
+				var content []byte
 				contentStartPos := parser.pos
-				if isSelfClosing {
-					content = ""
-				} else {
-					content = parser.parseElementContent(elemName)
+				if !isSelfClosing {
+					parser.parseElementContent(elemName)
+					// Search the source bytes themselves so that offsets stay exact
+					content = parser.data[contentStartPos:parser.contentEnd]
 				}
-				contentParser := newXMLParser([]byte(content))
+				contentParser := newXMLParser(content)
 				// Pass the current content start position as the new base offset
 				// Check for overflow before recursing
 				newOffset := baseOffset + contentStartPos
@@ -273,19 +275,17 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 				contentEnd = parser.pos
 				endTagPos = parser.pos
 			} else {
-				startOfContent := parser.pos
 				_ = parser.parseElementContent(elemName)
 				// parser.pos is now just after the '>' of </name>
-				// We want endTagPos to be at the '<' of </name>
-				endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+				endTagPos = parser.contentEnd // at '<' of </name>
 				contentEnd = endTagPos
-				_ = startOfContent
 			}
 			return &elementLocation{
 				startPos:      elemStartPos + baseOffset,
 				endTagPos:     endTagPos + baseOffset,
 				contentStart:  contentStart + baseOffset,
 				contentEnd:    contentEnd + baseOffset,
+				endPos:        parser.pos + baseOffset,
 				elementName:   elemName,
 				attrs:         attrs,
 				isSelfClosing: isSelfClosing,
@@ -293,14 +293,14 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 		}
 
 		// Continue searching within this element
-		var content string
+		var content []byte
 		contentStartPos := parser.pos
-		if isSelfClosing {
-			content = ""
-		} else {
-			content = parser.parseElementContent(elemName)
+		if !isSelfClosing {
+			parser.parseElementContent(elemName)
+			// Search the source bytes themselves so that offsets stay exact
+			content = parser.data[contentStartPos:parser.contentEnd]
 		}
-		contentParser := newXMLParser([]byte(content))
+		contentParser := newXMLParser(content)
 		// Pass the current content start position as the new base offset
 		// Check for overflow before recursing
 		newOffset := baseOffset + contentStartPos
@@ -519,7 +519,7 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 
 	// Find where root element ends
 	_ = parser.parseElementContent(elemName)
-	contentEnd := parser.pos - len(elemName) - 3
+	contentEnd := parser.contentEnd
 
 	b.result.Reset()
 	b.result.Write(b.data[:contentEnd])
@@ -1066,8 +1066,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 	} else {
 		// Regular element: <tag>content</tag>
 		// Skip past the closing tag </name>
-		endPos := location.endTagPos + len(location.elementName) + 3 // </name>
-		b.result.Write(b.data[endPos:])
+		b.result.Write(b.data[location.endPos:])
 	}
 
 	return nil
-- 
2.43.0


From e1092581401d463737fd34e87b2b4cf79b18338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:53 +0000
Subject: [PATCH 03/18] fix: do not panic on a filter value that is a single
 quote character

---
 filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 3ea0a2e..aa39e38 100644
--- a/filter.go
+++ b/filter.go
@@ -221,8 +221,8 @@ func parseFilterCondition(expr string) (*Filter, error) {
 	}
 
 	// Remove quotes from string values
-	if (strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
-		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\"")) {
+	if len(value) >= 2 && ((strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
+		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\""))) {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From 0275e4cef47dfe87013c7ab7418666fd3920a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:15 +0000
Subject: [PATCH 04/18] fix: put the value inside a self-closing element
 instead of after it

---
 builder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/builder.go b/builder.go
index 74aa15b..adf434a 100644
--- a/builder.go
+++ b/builder.go
@@ -324,6 +324,18 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	// Build the result XML
 	b.result.Reset()
 
+	if location.isSelfClosing {
+		// Convert <name .../> to <name ...>value</name>
+		b.result.Write(b.data[:location.contentStart-len("/>")])
+		b.result.WriteString(">")
+		b.result.WriteString(xmlValue)
+		b.result.WriteString("</")
+		b.result.WriteString(location.elementName)
+		b.result.WriteString(">")
+		b.result.Write(b.data[location.contentEnd:])
+		return nil
+	}
+
 	// Write everything up to and including the opening tag (up to contentStart)
 	b.result.Write(b.data[:location.contentStart])
 
-- 
2.43.0


From 67c3fcc38f8187930ac0509dbee53821d2400e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:54 +0000
Subject: [PATCH 05/18] fix: keep the tag text when expanding a self-closing
 element

Rebuilding the tag from the attribute map wrote attributes in random order and
re-escaped character references in attribute values.
---
 builder.go | 67 +++++-------------------------------------------------
 1 file changed, 6 insertions(+), 61 deletions(-)

diff --git a/builder.go b/builder.go
index adf434a..d039440 100644
--- a/builder.go
+++ b/builder.go
@@ -478,9 +478,8 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 		return ErrMalformedXML
 	}
 
-	elemStartPos := parser.pos
 	parser.next() // skip '<'
-	elemName, attrs, isSelfClosing := parser.parseElementName()
+	elemName, _, isSelfClosing := parser.parseElementName()
 
 	// Check if the first path segment matches the root element name
 	// If yes, skip it and create the rest inside root
@@ -497,23 +496,8 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 	if isSelfClosing {
 		// Root is self-closing - convert to full element with content
 		b.result.Reset()
-		// Write everything BEFORE the self-closing tag
-		b.result.Write(b.data[:elemStartPos])
-		// Build new opening tag
-		b.result.WriteString("<")
-		b.result.WriteString(elemName)
-
-		// Write attributes if any
-		if len(attrs) > 0 {
-			for k, v := range attrs {
-				b.result.WriteString(" ")
-				b.result.WriteString(k)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(v))
-				b.result.WriteString(`"`)
-			}
-		}
-
+		// Keep the source text of the tag, replacing "/>" with ">"
+		b.result.Write(b.data[:parser.pos-len("/>")])
 		b.result.WriteString(">")
 
 		// Build the path
@@ -608,24 +592,8 @@ func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPa
 
 	if parentLocation.isSelfClosing {
 		// Parent is self-closing - need to convert to full element
-		// Write everything before the self-closing tag
-		b.result.Write(b.data[:parentLocation.startPos])
-
-		// Rebuild opening tag
-		b.result.WriteString("<")
-		b.result.WriteString(parentLocation.elementName)
-
-		// Write attributes if any
-		if len(parentLocation.attrs) > 0 {
-			for k, v := range parentLocation.attrs {
-				b.result.WriteString(" ")
-				b.result.WriteString(k)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(v))
-				b.result.WriteString(`"`)
-			}
-		}
-
+		// Keep the source text of the tag, replacing "/>" with ">"
+		b.result.Write(b.data[:parentLocation.contentStart-len("/>")])
 		b.result.WriteString(">")
 
 		// Build the missing path
@@ -774,30 +742,7 @@ func (b *xmlBuilder) appendElement(path []PathSegment, value interface{}) error
 	if parentLoc.isSelfClosing {
 		// Convert <parent/> to <parent><child>value</child></parent>
 		b.result.Reset()
-		b.result.Write(b.data[:parentLoc.startPos])
-
-		// Rebuild opening tag
-		b.result.WriteString("<")
-		b.result.WriteString(parentLoc.elementName)
-
-		// Preserve attributes
-		if len(parentLoc.attrs) > 0 {
-			// Sort for deterministic output
-			attrNames := make([]string, 0, len(parentLoc.attrs))
-			for name := range parentLoc.attrs {
-				attrNames = append(attrNames, name)
-			}
-			sort.Strings(attrNames)
-
-			for _, name := range attrNames {
-				b.result.WriteString(" ")
-				b.result.WriteString(name)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(parentLoc.attrs[name]))
-				b.result.WriteString(`"`)
-			}
-		}
-
+		b.result.Write(b.data[:parentLoc.contentStart-len("/>")])
 		b.result.WriteString(">")
 
 		// Add new element
-- 
2.43.0


From 774c579a06a028d2539438a831d5aa87f1e622f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:26 +0000
Subject: [PATCH 06/18] fix: reject Set paths that would write nameless
 elements or invalid attribute names

---
 builder.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/builder.go b/builder.go
index d039440..0c97308 100644
--- a/builder.go
+++ b/builder.go
@@ -387,6 +387,9 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 		}
 	}
 	if !attrExists {
+		if err := validateName(attrName); err != nil {
+			return fmt.Errorf("%w: cannot create attribute '%s': %s", ErrInvalidPath, attrName, err)
+		}
 		attrNames = append(attrNames, attrName)
 	}
 
@@ -493,6 +496,10 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 		return nil
 	}
 
+	if err := checkCreatable(pathToCreate); err != nil {
+		return err
+	}
+
 	if isSelfClosing {
 		// Root is self-closing - convert to full element with content
 		b.result.Reset()
@@ -575,6 +582,10 @@ func (b *xmlBuilder) shouldCreateSiblingRoot(targetRootName string) bool {
 //	Set("deny.prefix", "10.0.0.0")
 //	Result: <sequence>10</sequence><deny><prefix>10.0.0.0</prefix></deny>
 func (b *xmlBuilder) createSiblingRoot(path []PathSegment, xmlValue string, isRaw bool) error {
+	if err := checkCreatable(path); err != nil {
+		return err
+	}
+
 	b.result.Reset()
 
 	// Copy all existing XML
@@ -586,8 +597,23 @@ func (b *xmlBuilder) createSiblingRoot(path []PathSegment, xmlValue string, isRa
 	return nil
 }
 
+// checkCreatable reports an error unless every segment of the path names an
+// element; indexes, wildcards and filters have no name to write
+func checkCreatable(path []PathSegment) error {
+	for _, seg := range path {
+		if seg.Type != SegmentElement {
+			return fmt.Errorf("%w: only elements can be created", ErrInvalidPath)
+		}
+	}
+	return nil
+}
+
 // createInParent creates missing elements within a parent element
 func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPath []PathSegment, xmlValue string, isRaw bool) error {
+	if err := checkCreatable(remainingPath); err != nil {
+		return err
+	}
+
 	b.result.Reset()
 
 	if parentLocation.isSelfClosing {
-- 
2.43.0


From 82d5fcacd686604aa2e4638cd501a7d89b45d9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:12 +0000
Subject: [PATCH 07/18] fix: reject raw fragments that are not valid element
 content

The tag balancing in SetRaw accepted a truncated closing tag and was confused
by '>' inside attribute values, so a document could become malformed.
---
 set.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/set.go b/set.go
index d9a89fa..79187b2 100644
--- a/set.go
+++ b/set.go
@@ -236,6 +236,18 @@ func validateRawXML(rawxml string) error {
 		return ErrInvalidValue
 	}
 
+	// The checks above only balance tag names; the fragment must also be
+	// acceptable as the content of an element
+	wrapped := []byte("<raw>" + rawxml + "</raw>")
+	if !ValidBytes(wrapped) {
+		return ErrInvalidValue
+	}
+	parser := newXMLParser(wrapped)
+	parser.pos = len("<raw>")
+	if parser.parseElementContent("raw") != rawxml {
+		return ErrInvalidValue
+	}
+
 	return nil
 }
 
-- 
2.43.0


From deb3351ee5844fffb6ad407b59237168ead26e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:22 +0000
Subject: [PATCH 08/18] fix: enforce MaxWildcardResults when nested wildcard
 results are flattened

---
 get.go | 50 +++++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/get.go b/get.go
index c97fb46..c37864b 100644
--- a/get.go
+++ b/get.go
@@ -118,6 +118,14 @@ type searchContext struct {
 	results    *[]Result
 }
 
+// appendResults appends results to dst, dropping any beyond MaxWildcardResults
+func appendResults(dst []Result, results ...Result) []Result {
+	if free := MaxWildcardResults - len(dst); len(results) > free {
+		results = results[:free]
+	}
+	return append(dst, results...)
+}
+
 // collectFragmentRoots collects all root elements matching the target name in a fragment.
 // This enables array operations on fragments: <user>A</user><user>B</user>
 // Security: Limited to MaxWildcardResults (1000) elements
@@ -609,7 +617,7 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 					// More segments - not supported for attributes
 					continue
 				}
-				allResults = append(allResults, Result{
+				allResults = appendResults(allResults, Result{
 					Type: Attribute,
 					Str:  attrValue,
 					Raw:  attrValue,
@@ -621,7 +629,7 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 		// Check if next segment is text content extraction
 		if nextSeg.Type == SegmentText {
 			textContent := extractDirectTextOnly(match.content)
-			allResults = append(allResults, Result{
+			allResults = appendResults(allResults, Result{
 				Type: String,
 				Str:  unescapeXML(textContent),
 				Raw:  match.content,
@@ -639,9 +647,9 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 			}
 			if result.Type == Array {
 				// Flatten nested arrays
-				allResults = append(allResults, result.Results...)
+				allResults = appendResults(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendResults(allResults, result)
 			}
 		}
 	}
@@ -790,14 +798,14 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 					result := executeFieldExtraction([]elementMatch{match}, nextSegment)
 					// Field extraction always returns Array (even if empty)
 					if result.Type == Array {
-						*ctx.results = append(*ctx.results, result.Results...)
+						*ctx.results = appendResults(*ctx.results, result.Results...)
 					}
 				default:
 					contentParser := newXMLParser([]byte(content))
 					result := executeQuery(contentParser, segments, segIndex+1)
 					if result.Type != Null {
 						if result.Type == Array {
-							*ctx.results = append(*ctx.results, result.Results...)
+							*ctx.results = appendResults(*ctx.results, result.Results...)
 						} else {
 							*ctx.results = append(*ctx.results, result)
 						}
@@ -1308,7 +1316,7 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 				for k, v := range match.attrs {
 					if toLowerASCII(k) == attrName {
 						if segIndex+2 >= len(segments) {
-							allResults = append(allResults, Result{
+							allResults = appendResults(allResults, Result{
 								Type: Attribute,
 								Str:  v,
 								Raw:  v,
@@ -1320,7 +1328,7 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 			}
 			if attrValue, ok := match.attrs[attrName]; ok {
 				if segIndex+2 >= len(segments) {
-					allResults = append(allResults, Result{
+					allResults = appendResults(allResults, Result{
 						Type: Attribute,
 						Str:  attrValue,
 						Raw:  attrValue,
@@ -1332,7 +1340,7 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 
 		if nextSeg.Type == SegmentText {
 			textContent := extractDirectTextOnly(match.content)
-			allResults = append(allResults, Result{
+			allResults = appendResults(allResults, Result{
 				Type: String,
 				Str:  unescapeXML(textContent),
 				Raw:  match.content,
@@ -1344,9 +1352,9 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
 		if result.Type != Null {
 			if result.Type == Array {
-				allResults = append(allResults, result.Results...)
+				allResults = appendResults(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendResults(allResults, result)
 			}
 		}
 	}
@@ -1480,7 +1488,7 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 					result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
 					if result.Type != Null {
 						if result.Type == Array {
-							*ctx.results = append(*ctx.results, result.Results...)
+							*ctx.results = appendResults(*ctx.results, result.Results...)
 						} else {
 							*ctx.results = append(*ctx.results, result)
 						}
@@ -1880,7 +1888,7 @@ func processAllMatches(matches []elementMatch, segments []PathSegment, segIndex
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if attrValue, ok := match.attrs[attrName]; ok {
-				allResults = append(allResults, Result{
+				allResults = appendResults(allResults, Result{
 					Type: Attribute,
 					Str:  attrValue,
 					Raw:  attrValue,
@@ -1892,7 +1900,7 @@ func processAllMatches(matches []elementMatch, segments []PathSegment, segIndex
 		// Handle text extraction
 		if nextSeg.Type == SegmentText {
 			textContent := extractDirectTextOnly(match.content)
-			allResults = append(allResults, Result{
+			allResults = appendResults(allResults, Result{
 				Type: String,
 				Str:  unescapeXML(textContent),
 				Raw:  match.content,
@@ -1913,9 +1921,9 @@ func processAllMatches(matches []elementMatch, segments []PathSegment, segIndex
 		if result.Type != Null {
 			if result.Type == Array {
 				// Flatten nested arrays
-				allResults = append(allResults, result.Results...)
+				allResults = appendResults(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendResults(allResults, result)
 			}
 		}
 	}
@@ -2174,7 +2182,7 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 			if !opts.CaseSensitive {
 				for k, v := range match.attrs {
 					if toLowerASCII(k) == attrName {
-						allResults = append(allResults, Result{
+						allResults = appendResults(allResults, Result{
 							Type: Attribute,
 							Str:  v,
 							Raw:  v,
@@ -2184,7 +2192,7 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 				continue
 			}
 			if attrValue, ok := match.attrs[attrName]; ok {
-				allResults = append(allResults, Result{
+				allResults = appendResults(allResults, Result{
 					Type: Attribute,
 					Str:  attrValue,
 					Raw:  attrValue,
@@ -2196,7 +2204,7 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		// Handle text extraction
 		if nextSeg.Type == SegmentText {
 			textContent := extractDirectTextOnly(match.content)
-			allResults = append(allResults, Result{
+			allResults = appendResults(allResults, Result{
 				Type: String,
 				Str:  unescapeXML(textContent),
 				Raw:  match.content,
@@ -2217,9 +2225,9 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		if result.Type != Null {
 			if result.Type == Array {
 				// Flatten nested arrays
-				allResults = append(allResults, result.Results...)
+				allResults = appendResults(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendResults(allResults, result)
 			}
 		}
 	}
-- 
2.43.0


From d05051a07d9216d177071b0505c90a57387dcf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:54 +0000
Subject: [PATCH 09/18] fix: make case-insensitive attribute lookup independent
 of map order

---
 get.go | 135 ++++++++++++++++++++++++++++++---------------------------
 1 file changed, 70 insertions(+), 65 deletions(-)

diff --git a/get.go b/get.go
index c37864b..e7ba645 100644
--- a/get.go
+++ b/get.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"sort"
 	"strings"
 	"unsafe"
 )
@@ -126,6 +127,24 @@ func appendResults(dst []Result, results ...Result) []Result {
 	return append(dst, results...)
 }
 
+// attrsFold returns the values of the attributes whose name equals lowerName when
+// lower-cased, ordered by name so that the outcome does not depend on map iteration order
+func attrsFold(attrs map[string]string, lowerName string) []string {
+	var names []string
+	for name := range attrs {
+		if toLowerASCII(name) == lowerName {
+			names = append(names, name)
+		}
+	}
+	sort.Strings(names)
+
+	values := make([]string, 0, len(names))
+	for _, name := range names {
+		values = append(values, attrs[name])
+	}
+	return values
+}
+
 // collectFragmentRoots collects all root elements matching the target name in a fragment.
 // This enables array operations on fragments: <user>A</user><user>B</user>
 // Security: Limited to MaxWildcardResults (1000) elements
@@ -1165,16 +1184,14 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 			attrName := segments[segIndex+1].Value
 			// For case-insensitive matching, search attrs case-insensitively
 			if !opts.CaseSensitive {
-				for k, v := range attrs {
-					if toLowerASCII(k) == attrName {
-						if segIndex+2 < len(segments) {
-							return Result{Type: Null}
-						}
-						return Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						}
+				for _, v := range attrsFold(attrs, attrName) {
+					if segIndex+2 < len(segments) {
+						return Result{Type: Null}
+					}
+					return Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
 					}
 				}
 				return Result{Type: Null}
@@ -1236,13 +1253,11 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 					if segments[segIndex+2].Type == SegmentAttribute {
 						attrName := segments[segIndex+2].Value
 						if !opts.CaseSensitive {
-							for k, v := range match.attrs {
-								if toLowerASCII(k) == attrName {
-									return Result{
-										Type: Attribute,
-										Str:  v,
-										Raw:  v,
-									}
+							for _, v := range attrsFold(match.attrs, attrName) {
+								return Result{
+									Type: Attribute,
+									Str:  v,
+									Raw:  v,
 								}
 							}
 							return Result{Type: Null}
@@ -1313,15 +1328,13 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrName {
-						if segIndex+2 >= len(segments) {
-							allResults = appendResults(allResults, Result{
-								Type: Attribute,
-								Str:  v,
-								Raw:  v,
-							})
-						}
+				for _, v := range attrsFold(match.attrs, attrName) {
+					if segIndex+2 >= len(segments) {
+						allResults = appendResults(allResults, Result{
+							Type: Attribute,
+							Str:  v,
+							Raw:  v,
+						})
 					}
 				}
 				continue
@@ -1454,15 +1467,13 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 				case SegmentAttribute:
 					attrName := nextSegment.Value
 					if !opts.CaseSensitive {
-						for k, v := range attrs {
-							if toLowerASCII(k) == attrName {
-								if segIndex+2 >= len(segments) {
-									*ctx.results = append(*ctx.results, Result{
-										Type: Attribute,
-										Str:  v,
-										Raw:  v,
-									})
-								}
+						for _, v := range attrsFold(attrs, attrName) {
+							if segIndex+2 >= len(segments) {
+								*ctx.results = appendResults(*ctx.results, Result{
+									Type: Attribute,
+									Str:  v,
+									Raw:  v,
+								})
 							}
 						}
 					} else {
@@ -1639,16 +1650,14 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 			// Case-insensitive attribute lookup
 			if !opts.CaseSensitive {
 				attrNameLower := toLowerASCII(attrName)
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrNameLower {
-						results = append(results, Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						})
-						totalExtracted++
-						break // Only match first attribute with this name
-					}
+				for _, v := range attrsFold(match.attrs, attrNameLower) {
+					results = append(results, Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
+					})
+					totalExtracted++
+					break // Only match first attribute with this name
 				}
 			} else {
 				// Case-sensitive attribute lookup
@@ -2089,19 +2098,17 @@ func processFirstMatchWithOptions(match elementMatch, segments []PathSegment, se
 		attrName := nextSeg.Value
 		// For case-insensitive matching, search attrs case-insensitively
 		if !opts.CaseSensitive {
-			for k, v := range match.attrs {
-				if toLowerASCII(k) == attrName {
-					result := Result{
-						Type: Attribute,
-						Str:  v,
-						Raw:  v,
-					}
-					// Apply modifiers from the attribute segment if present
-					if len(nextSeg.Modifiers) > 0 {
-						result = applyModifiers(result, nextSeg.Modifiers)
-					}
-					return result
+			for _, v := range attrsFold(match.attrs, attrName) {
+				result := Result{
+					Type: Attribute,
+					Str:  v,
+					Raw:  v,
+				}
+				// Apply modifiers from the attribute segment if present
+				if len(nextSeg.Modifiers) > 0 {
+					result = applyModifiers(result, nextSeg.Modifiers)
 				}
+				return result
 			}
 			return Result{Type: Null}
 		}
@@ -2180,14 +2187,12 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrName {
-						allResults = appendResults(allResults, Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						})
-					}
+				for _, v := range attrsFold(match.attrs, attrName) {
+					allResults = appendResults(allResults, Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
+					})
 				}
 				continue
 			}
-- 
2.43.0


From 21cc38893379c1f8d89543673ef94db5514d522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:59 +0000
Subject: [PATCH 10/18] fix: Delete of the only root element no longer returns
 it unchanged

---
 builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder.go b/builder.go
index 0c97308..c360704 100644
--- a/builder.go
+++ b/builder.go
@@ -1052,6 +1052,11 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 		b.result.Write(b.data[location.endPos:])
 	}
 
+	if b.result.Len() == 0 {
+		// The whole document was removed - there is no original to fall back to
+		b.data = nil
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 058c6824055b68002ca836e4a19799cc8c16f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:59 +0000
Subject: [PATCH 11/18] fix: validate mixed-case DOCTYPE declarations the way
 queries skip them

---
 validate.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/validate.go b/validate.go
index 7e8932d..85e0475 100644
--- a/validate.go
+++ b/validate.go
@@ -3,7 +3,10 @@
 
 package xmldot
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 // ValidateError represents an XML validation error with location information
 type ValidateError struct {
@@ -188,7 +191,7 @@ func (p *validatingParser) parseTag() *ValidateError {
 		// Check for DOCTYPE (forbidden for security)
 		if p.pos+7 <= p.dataLen {
 			doctype := string(p.data[p.pos : p.pos+7])
-			if doctype == "DOCTYPE" || doctype == "doctype" {
+			if strings.EqualFold(doctype, "DOCTYPE") {
 				// Skip DOCTYPE for security but don't treat as error
 				return p.skipDOCTYPE()
 			}
-- 
2.43.0


From efdb7d80280f673e21ec91343bb03fe2f03cee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:55 +0000
Subject: [PATCH 12/18] fix: keep untouched attribute values as written when
 changing one attribute

Values were unescaped and escaped again, which turned character references
such as &#65; into &amp;#65;.
---
 builder.go | 13 +++++++++++--
 parser.go  | 18 +++++++++++++-----
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/builder.go b/builder.go
index c360704..20a7fb1 100644
--- a/builder.go
+++ b/builder.go
@@ -349,6 +349,13 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	return nil
 }
 
+// rawAttributes returns the attributes of an element with their values as written
+// in the source
+func (b *xmlBuilder) rawAttributes(location *elementLocation) map[string]string {
+	parser := newXMLParser(b.data[location.startPos+len("<")+len(location.elementName) : location.contentStart])
+	return parser.parseAttributeValues(false)
+}
+
 // replaceAttribute replaces or adds an attribute to an element
 func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string, attrValue string) error {
 	// Build new opening tag with updated attribute
@@ -362,6 +369,7 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 	b.result.WriteString(location.elementName)
 
 	// Sort attribute names for deterministic output
+	rawAttrs := b.rawAttributes(location)
 	attrNames := make([]string, 0, len(location.attrs)+1)
 	for name := range location.attrs {
 		attrNames = append(attrNames, name)
@@ -412,7 +420,7 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 		if isModifiedAttr {
 			b.result.WriteString(attrValue)
 		} else {
-			b.result.WriteString(escapeXML(location.attrs[name]))
+			b.result.WriteString(strings.ReplaceAll(rawAttrs[name], `"`, "&quot;"))
 		}
 		b.result.WriteString("\"")
 	}
@@ -1093,6 +1101,7 @@ func (b *xmlBuilder) deleteAttribute(location *elementLocation, attrName string)
 	b.result.WriteString(location.elementName)
 
 	// Sort attribute names for deterministic output
+	rawAttrs := b.rawAttributes(location)
 	attrNames := make([]string, 0, len(location.attrs))
 	for name := range location.attrs {
 		// Skip the attribute to be deleted (case-sensitive or insensitive)
@@ -1114,7 +1123,7 @@ func (b *xmlBuilder) deleteAttribute(location *elementLocation, attrName string)
 		b.result.WriteString(" ")
 		b.result.WriteString(name)
 		b.result.WriteString("=\"")
-		b.result.WriteString(escapeXML(location.attrs[name]))
+		b.result.WriteString(strings.ReplaceAll(rawAttrs[name], `"`, "&quot;"))
 		b.result.WriteString("\"")
 	}
 
diff --git a/parser.go b/parser.go
index 24875a2..05a7308 100644
--- a/parser.go
+++ b/parser.go
@@ -166,8 +166,13 @@ func (p *xmlParser) readUntilAny(delims string) string {
 
 // parseAttributes extracts attributes from an element opening tag
 // Returns a map of attribute names to values
-// Optimized: Pre-allocate map with capacity hint to reduce allocations
 func (p *xmlParser) parseAttributes() map[string]string {
+	return p.parseAttributeValues(true)
+}
+
+// parseAttributeValues is parseAttributes with the choice of leaving values escaped
+// Optimized: Pre-allocate map with capacity hint to reduce allocations
+func (p *xmlParser) parseAttributeValues(unescape bool) map[string]string {
 	attrs := make(map[string]string, 4) // Most elements have 0-4 attributes
 	attrCount := 0
 
@@ -207,17 +212,20 @@ func (p *xmlParser) parseAttributes() map[string]string {
 		p.skipWhitespace()
 
 		// Read attribute value (can be quoted with " or ')
+		var value string
 		quote := p.peek()
 		if quote == '"' || quote == '\'' {
 			p.next() // skip opening quote
-			value := p.readUntil(quote)
+			value = p.readUntil(quote)
 			p.next() // skip closing quote
-			attrs[name] = unescapeXML(value)
 		} else {
 			// Unquoted attribute value (read until whitespace or >)
-			value := p.readUntilAny(" \t\n\r/>")
-			attrs[name] = unescapeXML(value)
+			value = p.readUntilAny(" \t\n\r/>")
+		}
+		if unescape {
+			value = unescapeXML(value)
 		}
+		attrs[name] = value
 	}
 
 	return attrs
-- 
2.43.0


From ab4d4b8e42fc8c35fb73016c1aa315f87116765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:20 +0000
Subject: [PATCH 13/18] fix: reject raw attribute values that would break out
 of the attribute

---
 builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder.go b/builder.go
index 20a7fb1..2100695 100644
--- a/builder.go
+++ b/builder.go
@@ -140,6 +140,11 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 		attrName := path[len(path)-1].Value
 		elementPath := path[:len(path)-1]
 
+		// A raw value must not be able to end the attribute or the tag
+		if isRaw && strings.ContainsAny(xmlValue, "<\"") {
+			return fmt.Errorf("%w: raw attribute value contains markup", ErrInvalidValue)
+		}
+
 		// Find the parent element
 		parser := newXMLParser(b.data)
 		location, found := b.findElementLocation(parser, elementPath, 0, 0)
-- 
2.43.0


From 3e27054b61426111d4125791480caccd50d0a1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:30:58 +0000
Subject: [PATCH 14/18] fix: reject CDATA sections outside root elements

The validator rejects text outside root elements but skipped a CDATA
section there, so documents such as <![CDATA[x]]><a/> were accepted.
---
 validate.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/validate.go b/validate.go
index 85e0475..18f52d5 100644
--- a/validate.go
+++ b/validate.go
@@ -206,6 +206,13 @@ func (p *validatingParser) parseTag() *ValidateError {
 
 		// CDATA
 		if p.pos+7 <= p.dataLen && string(p.data[p.pos:p.pos+7]) == "[CDATA[" {
+			if len(p.tagStack) == 0 {
+				return &ValidateError{
+					Line:    tagLine,
+					Column:  tagColumn,
+					Message: "content not allowed outside root element",
+				}
+			}
 			for i := 0; i < 7; i++ {
 				p.advance()
 			}
-- 
2.43.0


From e696607be8963bb86e397561336888d33369e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:59:31 +0000
Subject: [PATCH 15/18] fix: keep all result fields in @pretty and @ugly

---
 modifier.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/modifier.go b/modifier.go
index d2a255f..faa03d9 100644
--- a/modifier.go
+++ b/modifier.go
@@ -420,12 +420,8 @@ func (m *prettyModifier) Apply(r Result) Result {
 		return r
 	}
 
-	return Result{
-		Type: r.Type,
-		Str:  r.Str,
-		Raw:  buf.String(),
-		Num:  r.Num,
-	}
+	r.Raw = buf.String()
+	return r
 }
 
 // deduplicateXmlnsAttrs removes duplicate xmlns namespace declarations from attributes.
@@ -481,12 +477,8 @@ func (m *uglyModifier) Apply(r Result) Result {
 	// Remove whitespace between tags
 	compacted := compactXML(r.Raw)
 
-	return Result{
-		Type: r.Type,
-		Str:  r.Str,
-		Raw:  compacted,
-		Num:  r.Num,
-	}
+	r.Raw = compacted
+	return r
 }
 
 // compactXML removes unnecessary whitespace from XML while preserving CDATA sections.
-- 
2.43.0


From c57eb22d0843de1d7af5e91ae53e6559445d4234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:40:28 +0000
Subject: [PATCH 16/18] fix: refuse every declaration in SetRaw fragments

The scan that rejects DOCTYPE and ENTITY declarations could be made to skip
over one: it treated a '>' inside a quoted attribute value as the end of the
tag, took '<!-' for the start of a comment, and only knew upper-case keywords.
Names in tags now end at any whitespace, as in the parser.
---
 set.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/set.go b/set.go
index 79187b2..6f8b93a 100644
--- a/set.go
+++ b/set.go
@@ -126,7 +126,7 @@ func validateRawXML(rawxml string) error {
 				tagNameStart := i
 
 				// Extract tag name
-				for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != ' ' {
+				for i < len(rawxml) && rawxml[i] != '>' && !isWhitespace(rawxml[i]) {
 					i++
 				}
 				tagName := rawxml[tagNameStart:i]
@@ -154,13 +154,13 @@ func validateRawXML(rawxml string) error {
 				continue
 			} else if next == '!' || next == '?' {
 				// Comment, CDATA, or PI - skip
-				if i+2 < len(rawxml) && rawxml[i+2] == '-' {
+				if strings.HasPrefix(rawxml[i:], "<!--") {
 					// Comment: <!--
-					endPos := strings.Index(rawxml[i:], "-->")
+					endPos := strings.Index(rawxml[i+4:], "-->")
 					if endPos == -1 {
 						return ErrInvalidValue
 					}
-					i += endPos + 3
+					i += 4 + endPos + 3
 				} else if strings.HasPrefix(rawxml[i:], "<![CDATA[") {
 					// CDATA - validate no nested CDATA or suspicious patterns
 					cdataStart := i + 9
@@ -185,8 +185,11 @@ func validateRawXML(rawxml string) error {
 				} else if strings.HasPrefix(rawxml[i:], "<!ENTITY") {
 					// ENTITY declarations - REJECT for security
 					return fmt.Errorf("%w: ENTITY declarations not allowed in SetRaw", ErrInvalidValue)
+				} else if next == '!' {
+					// Any other declaration, e.g. a DOCTYPE in lower case
+					return fmt.Errorf("%w: declarations not allowed in SetRaw", ErrInvalidValue)
 				} else {
-					// PI or other - skip to end
+					// PI - skip to end
 					endPos := strings.Index(rawxml[i:], ">")
 					if endPos == -1 {
 						return ErrInvalidValue
@@ -199,7 +202,7 @@ func validateRawXML(rawxml string) error {
 			// Opening tag - extract tag name
 			i++
 			tagNameStart := i
-			for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != ' ' && rawxml[i] != '/' {
+			for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != '/' && !isWhitespace(rawxml[i]) {
 				i++
 			}
 			tagName := rawxml[tagNameStart:i]
@@ -210,8 +213,15 @@ func validateRawXML(rawxml string) error {
 
 			// Check for self-closing
 			isSelfClosing := false
+			var quote byte // open quote of an attribute value
 			for i < len(rawxml) {
-				if rawxml[i] == '/' && i+1 < len(rawxml) && rawxml[i+1] == '>' {
+				if quote != 0 {
+					if rawxml[i] == quote {
+						quote = 0
+					}
+				} else if rawxml[i] == '"' || rawxml[i] == '\'' {
+					quote = rawxml[i]
+				} else if rawxml[i] == '/' && i+1 < len(rawxml) && rawxml[i+1] == '>' {
 					isSelfClosing = true
 					i += 2
 					break
-- 
2.43.0


From ad0306519f2fdca146f55abf66ac126ec8a3c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:40:43 +0000
Subject: [PATCH 17/18] fix: match fragment roots by the name rule in root
 counts and indexes

---
 get.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/get.go b/get.go
index e7ba645..6b57620 100644
--- a/get.go
+++ b/get.go
@@ -150,6 +150,7 @@ func attrsFold(attrs map[string]string, lowerName string) []string {
 // Security: Limited to MaxWildcardResults (1000) elements
 func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
 	var matches []elementMatch
+	target := PathSegment{Type: SegmentElement, Value: targetName}
 
 	for parser.skipToNextElement() {
 		// Security limit: prevent collecting too many roots
@@ -161,7 +162,7 @@ func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
 		elemName, attrs, isSelfClosing := parser.parseElementName()
 
 		// Only collect roots with matching name
-		if elemName != targetName {
+		if !target.matches(elemName) {
 			// Skip non-matching root element
 			if !isSelfClosing {
 				parser.parseElementContent(elemName)
-- 
2.43.0


From 11763d94aeb6f95a948596b275d13a8a2d6479ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:40:43 +0000
Subject: [PATCH 18/18] fix: match extracted fields by the name rule

---
 get.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/get.go b/get.go
index 6b57620..5b99e8f 100644
--- a/get.go
+++ b/get.go
@@ -1562,6 +1562,7 @@ func executeFieldExtraction(matches []elementMatch, segment PathSegment) Result
 		} else {
 			// Extract child element(s) with matching name
 			parser := newXMLParser([]byte(match.content))
+			field := PathSegment{Type: SegmentElement, Value: fieldName}
 			for parser.skipToNextElement() {
 				// Security: Check limit on each iteration
 				if totalExtracted >= MaxWildcardResults {
@@ -1572,7 +1573,7 @@ func executeFieldExtraction(matches []elementMatch, segment PathSegment) Result
 				elemName, _, isSelfClosing := parser.parseElementName()
 
 				// Check if element name matches field name
-				if elemName != fieldName {
+				if !field.matches(elemName) {
 					// Skip this element
 					if !isSelfClosing {
 						parser.parseElementContent(elemName)
@@ -1684,10 +1685,7 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 		} else {
 			// Extract child element(s) with matching name (case-insensitive if needed)
 			parser := newXMLParser([]byte(match.content))
-			fieldNameCmp := fieldName
-			if !opts.CaseSensitive {
-				fieldNameCmp = toLowerASCII(fieldName)
-			}
+			field := PathSegment{Type: SegmentElement, Value: fieldName}
 
 			for parser.skipToNextElement() {
 				if totalExtracted >= MaxWildcardResults {
@@ -1698,12 +1696,7 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 				elemName, _, isSelfClosing := parser.parseElementName()
 
 				// Case-aware comparison
-				elemNameCmp := elemName
-				if !opts.CaseSensitive {
-					elemNameCmp = toLowerASCII(elemName)
-				}
-
-				if elemNameCmp != fieldNameCmp {
+				if !field.matchesWithOptions(elemName, opts) {
 					if !isSelfClosing {
 						parser.parseElementContent(elemName)
 					}
-- 
2.43.0

